import { BROWSER_ENTRY } from '../lib/client.mjs';
import { drive, scriptOf } from './C23.mjs';
import { Device } from '../lib/env.mjs';
import { canon } from '../lib/util.mjs';
const NAMES = ['error', 'warn', 'info', 'debug', 'verbose'];
const text = (a) => canon(JSON.parse(JSON.stringify(a.map((x) => (x && typeof x === 'object' && 'message' in x ? String(x.message) : x === undefined ? 'undefined' : x)))));
export default {
  property: 'C26', bundles: { browser: BROWSER_ENTRY },
  rule: 'Each random script of client calls (as in C23, with failing requests) runs once with a logger that hears everything and several times with every way to configure logging (no configuration, the debug flag, each level, contradictions of both, a logger of the application which may be a class, the console). What is heard must be exactly the messages of the first run up to the level, in order, each by the method of its level; the answers and exposures are the same whatever is logged. Non-trivial = distinct script and configuration in which something was to be heard or withheld',
  requires: ['unconfigured', 'debug', 'level-0', 'level-1', 'level-2', 'level-3', 'level-4', 'level-5', 'debug-and-level', 'debug-false', 'console', 'logger', 'class', 'heard-error', 'heard-info', 'heard-debug', 'withheld', 'nothing-heard'],
  workloads: [{ name: 'levels', quick: 1500, thorough: 40000, async run(t) {
    const r = t.rng; const script = scriptOf(r); const seed = r.u32(); script.config.retryFetchOnFailure = r.bool(); for (const s of script.steps) if (s.world && r.bool(0.3)) s.world.down = true;
    const hear = () => { const lines = []; class L { constructor() { this.lines = lines; } } for (const k of NAMES) L.prototype[k] = function (...a) { this.lines.push([k, text(a)]); }; return { lines, logger: new L() }; };
    const all = hear(); const ref = await drive(t, { ...script, config: { ...script.config, logLevel: 5 }, logger: all.logger }, new Device({ seed })); ref.page.close(); if (t.found) return; const seen = new Set(all.lines.map((x) => x[0]));
    for (let i = 0; i < 3; i++) {
      const how = r.weighted([[1.5, 'unconfigured'], [1.5, 'debug'], [4, 'level'], [1, 'debug-and-level'], [1, 'debug-false']]); const level = r.int(0, 5); const conf = how === 'debug' ? { debug: true } : how === 'level' ? { logLevel: level } : how === 'debug-and-level' ? { debug: true, logLevel: level } : how === 'debug-false' ? { debug: false, ...(r.bool() ? { logLevel: level } : {}) } : {}; const eff = conf.debug ? 4 : conf.logLevel ?? 1; t.count(how === 'level' ? 'level-' + level : how);
      const mode = r.pick(['console', 'logger', 'class']); t.count(mode); const got = hear(); const plain = Object.fromEntries(NAMES.map((k) => [k, (...a) => got.lines.push([k, text(a)])])); const s = { ...script, config: { ...script.config, ...conf }, logger: mode === 'console' ? null : mode === 'class' ? got.logger : plain };
      const run = await drive(t, s, new Device({ seed })); const heard = mode === 'console' ? run.page.consoleLog.map(([k, a]) => [k, text(a)]) : got.lines; run.page.close(); if (t.found) return;
      const want = all.lines.filter(([k]) => NAMES.indexOf(k) < eff).map(([k, a]) => [mode === 'console' && k === 'verbose' ? 'debug' : k, a]); const short = (x) => x.slice(0, 6).map(([k, a]) => k + ' ' + a.slice(0, 120));
      t.equal(heard, want, 'heard', () => ({ conf, mode, heard: short(heard), want: short(want), n: [heard.length, want.length] })); if (mode !== 'console') t.check(!run.page.consoleLog.length, 'console-though-logger', () => ({ conf, console: short(run.page.consoleLog.map(([k, a]) => [k, text(a)])) }));
      t.equal(run.obs, ref.obs, 'different-answer', () => ({ conf, mode })); t.equal(run.sent, ref.sent, 'different-exposures', () => ({ conf, mode })); for (const [k] of want) t.count('heard-' + k); if (want.length < all.lines.length) t.count('withheld'); if (!want.length) t.count('nothing-heard'); t.evaluated(seen.size ? canon([script.seed, conf, mode]) : null);
    }
  } }],
};
