// node tally.js PROP N [seed]: kinds of violations in N runs
const W=require("./world.js");(async()=>{await W.ready;const [,,prop,n,seed]=process.argv;const c={},st={};let nt=0;const t0=Date.now();
for(let i=0;i<+n;i++){const plan=W.gen(`${seed||1}:${prop}:${i}`,prop);let w;try{w=await W.run(plan,prop)}catch(e){c.ERR=c.ERR||[];c.ERR.push(i+" "+e.stack.slice(0,300));continue}
for(const k in w.stats)st[k]=(st[k]||0)+w.stats[k];if(W.nontrivial(prop,w))nt++;
const seen=new Set();for(const [p,k,m] of w.bad){const key=p+" "+k;if(seen.has(key))continue;seen.add(key);(c[key]=c[key]||[]).push([i,m.slice(0,260)])}}
for(const k in c)console.log(k,c[k].length,JSON.stringify(c[k].slice(0,2)));console.log("nontrivial",nt,"of",n,(Date.now()-t0)/n,"ms/run",JSON.stringify(st));process.exit(0)})()
