#!/usr/bin/env node
// node run.mjs <ID> <quick|thorough> [--replay FILE] [--only WORKLOAD] [--jobs N]
import fs from 'node:fs';
import path from 'node:path';
import os from 'node:os';
import { fork } from 'node:child_process';
import { Rng } from './lib/prng.mjs';
import { bundle } from './lib/build.mjs';
import { canon, short } from './lib/util.mjs';

const HERE = path.dirname(new URL(import.meta.url).pathname);
const argv = process.argv.slice(2);
const opt = (n, d) => { const i = argv.indexOf(n); return i < 0 ? d : argv[i + 1]; };
const ID = argv[0];
const replayFile = opt('--replay');
const replay = replayFile ? JSON.parse(fs.readFileSync(replayFile, 'utf8')) : null;
const TIER = replay ? replay.tier : (argv[1] && !argv[1].startsWith('--') ? argv[1] : process.env.VERIF_TIER || 'quick');
const SEED = replay ? replay.seed : Number.parseInt(process.env.VERIF_SEED || '1', 10) || 1;
const spec = (await import(path.join(HERE, 'checks', ID + '.mjs'))).default;
const BUDGET_MS = Number(process.env.VERIF_BUDGET_MS || (TIER === 'thorough' ? 780_000 : 240_000));

const KNOWN = fs.existsSync(path.join(HERE, 'known-findings.txt')) ? fs.readFileSync(path.join(HERE, 'known-findings.txt'), 'utf8').split('\n').map((l) => l.match(/^KNOWN-FINDING: property=(\S+) sig=(\S+) (.*)$/)).filter((m) => m && m[1] === ID).map((m) => ({ sig: m[2], text: m[3] })) : [];

class Case {
  constructor(shared, w, i) {
    this.sh = shared; this.workload = w.name; this.index = i;
    this.rng = new Rng(`${SEED}/${ID}/${w.name}/${i}`); this.tier = TIER; this.seed = SEED;
    this.sut = shared.bundles; this.found = 0; this.trace = [];
  }
  count(name, n = 1) { this.sh.counters[name] = (this.sh.counters[name] || 0) + n; }
  /** One execution judged by the oracle; key identifies it for the distinct count when non-trivial. */
  evaluated(key) { this.sh.evaluations++; if (key !== undefined && key !== null) this.sh.distinct.add(typeof key === 'string' ? key : canon(key)); }
  sample(o) { if (this.sh.samples.length < 3 && this.index % 7 === this.sh.samples.length % 7) this.sh.samples.push({ workload: this.workload, case: this.index, ...o }); }
  log(...a) { this.trace.push(a.map((x) => (typeof x === 'string' ? x : short(x, 2000))).join(' ')); }
  violation(sig, detail) {
    const k = KNOWN.find((x) => x.sig === sig); if (k) { this.sh.known[sig] = (this.sh.known[sig] || 0) + 1; return; }
    this.found++;
    const v = { property: ID, sig, detail: detail === undefined ? '' : short(detail, 6000), seed: SEED, tier: TIER, workload: this.workload, index: this.index, trace: this.trace.slice(-200) };
    this.sh.violations.push(v);
    if (this.found > 3) throw new StopCase();
  }
  check(cond, sig, detail) { if (!cond) this.violation(sig, typeof detail === 'function' ? detail() : detail); return cond; }
  equal(actual, expected, sig, detail) {
    const a = canon(actual), e = canon(expected);
    if (a !== e) this.violation(sig, { actual: a.slice(0, 2500), expected: e.slice(0, 2500), at: typeof detail === "function" ? detail() : detail });
    return a === e;
  }
}
class StopCase extends Error {}

const HANG_MS = Number(process.env.VERIF_HANG_MS || 90_000); // a case takes milliseconds; one that runs this long never returns
const progress = (workload, index) => { if (process.send) process.send({ at: { workload, index } }); };
const report = (sh) => ({ ...sh, bundles: undefined, distinct: [...sh.distinct].map(hash64) });

async function worker(shard, shards) {
  const t0 = Date.now();
  const sh = { bundles: {}, counters: {}, evaluations: 0, distinct: new Set(), samples: [], violations: [], known: {}, truncated: 0, unhandled: 0, ran: {} };
  for (const [k, src] of Object.entries(spec.bundles || {})) sh.bundles[k] = await bundle(typeof src === 'string' ? src : src.src, src.pkg);
  let current = null;
  // an awaited promise of the code under test that can no longer settle leaves the event loop empty in the middle of a case
  process.once('beforeExit', () => { if (current) { try { current.violation('never-settles', 'a promise the case waits for can no longer settle'); } catch {} } process.send(report(sh), () => process.exit(0)); });
  process.on('unhandledRejection', (e) => { sh.unhandled++; if (current && spec.onUnhandled) spec.onUnhandled(current, e); });
  for (const w of spec.workloads) {
    if (opt('--only') && opt('--only') !== w.name) continue;
    const n = w[TIER] ?? w.quick;
    for (let i = 0; i < n; i++) {
      if (replay ? (w.name !== replay.workload || i !== replay.index) : i % shards !== shard) continue;
      if (Date.now() - t0 > BUDGET_MS) { sh.truncated++; continue; }
      const c = new Case(sh, w, i); current = c; progress(w.name, i);
      try { await w.run(c); await new Promise((r) => setImmediate(r)); } catch (e) {
        if (!(e instanceof StopCase)) { try { c.violation('unexpected-exception', `${e?.name}: ${e?.message}\n${String(e?.stack).split('\n').slice(0, 8).join('\n')}`); } catch (x) { if (!(x instanceof StopCase)) throw x; } }
      }
      sh.ran[w.name] = (sh.ran[w.name] || 0) + 1;
      if (sh.violations.length >= 40) break;
    }
    if (sh.violations.length >= 40) break;
  }
  return report(sh);
}
function hash64(s) { let a = 0x811c9dc5, b = 0x1b873593; for (let i = 0; i < s.length; i++) { const c = s.charCodeAt(i); a = Math.imul(a ^ c, 0x01000193); b = Math.imul(b ^ c, 0x85ebca6b) ^ (b >>> 13); } return (a >>> 0).toString(36) + (b >>> 0).toString(36); }

if (process.env.VERIF_SHARD) {
  process.on('disconnect', () => process.exit(1)); process.channel?.unref();
  const [s, n] = process.env.VERIF_SHARD.split('/').map(Number);
  const r = await worker(s, n).catch((e) => ({ fatal: String(e?.stack || e) }));
  process.send(r, () => process.exit(0));
} else {
  const t0 = Date.now();
  let results;
  const jobs = replay ? 1 : Number(opt('--jobs', spec.jobs || Math.min(8, Math.max(2, os.cpus().length))));
  const kids = new Set(); const stop = () => { for (const k of kids) k.kill('SIGKILL'); };
  process.on('exit', stop); for (const sig of ['SIGTERM', 'SIGINT', 'SIGHUP']) process.on(sig, () => { stop(); process.exit(143); });
  results = await Promise.all(Array.from({ length: jobs }, (_, s) => new Promise((res) => {
    const p = fork(path.join(HERE, 'run.mjs'), process.argv.slice(2), { env: { ...process.env, VERIF_SHARD: `${s}/${jobs}` }, stdio: ['ignore', 'inherit', 'inherit', 'ipc'], execArgv: ['--max-old-space-size=3000'] });
    kids.add(p); let got = null, at = null, since = Date.now(), hung = false;
    const dog = setInterval(() => { if (at && !got && Date.now() - since > HANG_MS) { hung = true; clearInterval(dog); p.kill('SIGKILL'); } }, 1000);
    p.on('message', (m) => { since = Date.now(); if (m.at) at = m.at; else got = m; });
    p.on('exit', (c, sig) => {
      kids.delete(p); clearInterval(dog);
      if (got) return res(got);
      const failed = hung ? ['hang', `the case did not return within ${HANG_MS / 1000} s`] : null;
      if (!failed) return res({ fatal: `worker ${s} exited with ${c ?? sig} at ${JSON.stringify(at)}` });
      res({ counters: {}, evaluations: 0, distinct: [], samples: [], known: {}, truncated: 0, unhandled: 0, ran: {}, violations: [{ property: ID, sig: failed[0], detail: failed[1], seed: SEED, tier: TIER, workload: at.workload, index: at.index, trace: [] }] });
    });
  })));
  const fatal = results.find((r) => r.fatal);
  if (fatal) { console.error(`ERROR property=${ID} the check could not run: ${fatal.fatal}`); process.exit(2); }
  const distinct = new Set(); const counters = {}; const ran = {}; let evaluations = 0, truncated = 0, unhandled = 0; const samples = []; const violations = [];
  for (const r of results) {
    r.distinct.forEach((d) => distinct.add(d)); evaluations += r.evaluations; truncated += r.truncated; unhandled += r.unhandled;
    for (const [k, v] of Object.entries(r.counters)) counters[k] = (counters[k] || 0) + v;
    for (const [k, v] of Object.entries(r.ran)) ran[k] = (ran[k] || 0) + v;
    samples.push(...r.samples); violations.push(...r.violations);
  }
  const fresh = violations; const knownHits = {}; for (const r of results) for (const [k, v] of Object.entries(r.known)) knownHits[k] = (knownHits[k] || 0) + v;
  for (const k of KNOWN) if (knownHits[k.sig]) console.log(`KNOWN-FINDING: property=${ID} ${k.text} (seen ${knownHits[k.sig]} times)`);
  const missing = replay || opt('--only') ? [] : (spec.requires || []).filter((k) => !counters[k]);
  const wall = (Date.now() - t0) / 1000;
  if (!replay && !opt('--only') && !process.env.VERIF_NO_EVIDENCE) {
    fs.mkdirSync(path.join(HERE, 'evidence'), { recursive: true });
    fs.writeFileSync(path.join(HERE, 'evidence', ID + '.json'), JSON.stringify({
      property: ID, tier: TIER, seed: SEED, level: spec.level || 'exploration',
      coverage: { evaluations, distinct_nontrivial: distinct.size, rule: spec.rule, samples: samples.slice(0, 6), observed: counters, cases_per_workload: ran, cases_cut_by_time_budget: truncated, unhandled_rejections: unhandled },
      assumptions: spec.assumptions || [], wall_s: wall, violations: fresh.length, known_findings: knownHits }, null, 1) + '\n');
  }
  console.log(`${ID} ${TIER} seed=${SEED}: ${evaluations} evaluations, ${distinct.size} distinct non-trivial, ${wall.toFixed(1)} s${truncated ? `, ${truncated} cases cut by the time budget` : ''}`);
  console.log('observed: ' + Object.entries(counters).map(([k, v]) => `${k}=${v}`).join(' '));
  if (fresh.length) {
    fs.mkdirSync(path.join(HERE, 'replays'), { recursive: true });
    const bySig = new Map(); for (const v of fresh) if (!bySig.has(v.sig)) bySig.set(v.sig, v);
    let n = 0; if (process.env.VERIF_NO_EVIDENCE) process.exit(1);
    for (const v of [...bySig.values()].slice(0, 6)) {
      const f = path.join(HERE, 'replays', `${ID}-${v.workload}-${v.index}-${n++}.json`);
      fs.writeFileSync(f, JSON.stringify(v, null, 1));
      console.log(`VIOLATION property=${ID} replay=${f}`);
      console.log(`  [${v.sig}] workload=${v.workload} case=${v.index} (${fresh.filter((x) => x.sig === v.sig).length}x)\n  ${v.detail.slice(0, 1800)}`);
      if (replay) console.log(v.trace.join('\n'));
    }
    process.exit(1);
  }
  if (missing.length || evaluations === 0 && !replay) { console.error(`INCONCLUSIVE property=${ID}: nothing observed for ${missing.join(', ') || 'any workload'}`); process.exit(2); }
  process.exit(0);
}
