"use strict";
// One shard of a check of the browser world, or one replay; same protocol as ../worker.py
const fs = require("fs");
const W = require("./world.js");

async function one(plan, prop, trace) {
  try { const w = await W.run(plan, prop, trace); return [w, W.judge(prop, plan, w), null]; }
  catch (e) { return [null, [], String((e && e.stack) || e).slice(0, 1500)]; }
}
async function search(job) {
  const out = fs.openSync(job.out, "w");
  const emit = (o) => fs.writeSync(out, JSON.stringify(o) + "\n");
  const t0 = Date.now(), left = () => (Date.now() - t0) / 1000 < job.budget;
  await W.ready;
  const stats = {}, digests = new Set(), shapes = new Set(), errors = [], samples = [];
  let runs = 0, nontrivial = 0, redo = 0, mismatch = 0, sim = 0, steps = 0, i = job.shard;
  while (runs < job.max_runs && left()) {
    if (fs.existsSync(job.stop)) break;
    const seed = `${job.seed}:${job.prop}:${i}`;
    const plan = W.gen(seed, job.prop);
    runs++;
    const [w, bad, err] = await one(plan, job.prop);
    if (!w) { errors.push([i, err]); if (errors.length > 20) break; i += job.nshards; continue; }
    for (const k in w.stats) stats[k] = (stats[k] || 0) + w.stats[k];
    sim += w.sim_time; steps += w.steps;
    for (const s of w.shapes) if (shapes.size < 200000) shapes.add(s);
    if (W.nontrivial(job.prop, w)) {
      nontrivial++;
      digests.add(w.digest);
      if (samples.length < 2 && JSON.stringify(plan).length < 9000) samples.push({ seed, plan, digest: w.digest, stats: { ...w.stats } });
    }
    if (runs % 64 === 1) { redo++; const [w2] = await one(plan, job.prop); if (!w2 || w2.digest !== w.digest) mismatch++; }
    if (bad.length) {
      const [kind, msg] = bad[0];
      let small = plan, tried = 0, changed = true;
      const m0 = Date.now();
      while (changed && Date.now() - m0 < job.shrink * 1000) {
        changed = false;
        for (const cand of W.shrink(small)) {
          if (Date.now() - m0 > job.shrink * 1000) break;
          tried++;
          const [, b] = await one(cand, job.prop);
          if (b.some(([k]) => k === kind)) { small = cand; changed = true; break; }
        }
      }
      const [w3, b3] = await one(small, job.prop, true);
      const m3 = b3.filter(([k]) => k === kind).map(([, m]) => m)[0];
      emit({ t: "violation", replay: {
        property: job.prop, kind, message: m3 || msg, world: job.world, seed, hashseed: +process.env.PYTHONHASHSEED,
        digest: w3 ? w3.digest : null, plan: small, minimised_from_bytes: JSON.stringify(plan).length,
        minimised_to_bytes: JSON.stringify(small).length, minimise_runs: tried, trace: w3 ? w3.trace.slice(-400) : [] } });
    }
    i += job.nshards;
  }
  emit({ t: "final", runs, nontrivial, digests: [...digests].sort(), shapes: shapes.size, stats, errors, sim, steps, samples, carried: 0, redo, mismatch, wall: (Date.now() - t0) / 1000 });
}
async function replay(path) {
  const r = JSON.parse(fs.readFileSync(path, "utf8"));
  await W.ready;
  const [w, bad, err] = await one(r.plan, r.property, true);
  if (!w) { console.log("replay error:", err); return 3; }
  if (process.argv.includes("-v")) for (const t of w.trace) console.log(...t);
  for (const [k, m] of bad) console.log(`${r.property} ${k}: ${m}`);
  console.log("digest", w.digest === r.digest ? "identical" : "differs");
  return bad.some(([k]) => k === r.kind) ? 1 : 0;
}
if (process.argv[2] === "search") search(JSON.parse(fs.readFileSync(process.argv[3], "utf8"))).then(() => process.exit(0));
else if (process.argv[2] === "replay") replay(process.argv[3]).then((c) => process.exit(c));
