import vm from 'node:vm';
import { Page, Device } from '../lib/env.mjs';
import { CORE_ENTRY } from '../lib/corelib.mjs';
import * as M from '../models/evaluation.mjs';
import { canon } from '../lib/util.mjs';
let shared = null;
const LIMIT = 3000; // ms of processor time a single evaluation may take before it counts as stalled
const unit = (r) => r.pick(['1', '1.', '0', '.', '-', '1-', 'a', 'a.', '-a', 'a-', '1.0.0-', '9', ' ', '[', ']', '"', '","', '{', '\\', 'true', 'e', '1e', '+', 'é', '0.0', '--', '-.', '1.2.3-a.b']);
const hostile = (r, n) => { const u = r.bool(0.3) ? unit(r) + unit(r) : unit(r); const pre = r.pick(['', '1.2.3-', '1.2.3-', '1.2.', '1.', '[', '["', 'v', '1.2.3-a', '-', '0x', '[[']); const post = r.pick(['', '!', '!', ' ', '.', ']', '"]', '\n', '-', '$', 'é']); return pre + u.repeat(Math.max(1, Math.floor(n / u.length))) + post; };
export default {
  property: 'C06', bundles: { core: CORE_ENTRY }, jobs: 6,
  rule: `Every operator x long adversarial property and filter values (up to 40000 characters), evaluated under a ${LIMIT} ms watchdog and compared with the reference evaluator; non-trivial = distinct (operator, value) evaluated.`,
  requires: ['long', 'version-op', 'matched', 'unmatched'],
  workloads: [{ name: 'hostile', quick: 1600, thorough: 60000, run(t) {
    const r = t.rng; const op = r.bool(0.4) ? 'version ' + r.pick(['less', 'less or equal', 'greater', 'greater or equal']) : r.pick(M.OPS.filter((o) => !o.startsWith('regex')));
    const n = r.pick([24, 30, 36, 60, 400, 5000, 40000]); if (n >= 5000) t.count('long'); if (op.startsWith('version')) t.count('version-op');
    const v = r.bool(0.1) ? r.list(1, 3, () => hostile(r, n)) : hostile(r, n); const vals = r.list(1, 2, () => (r.bool(0.25) ? hostile(r, r.pick([30, n])) : r.pick(['1.2.3', '1.2.3-beta', '5', 'true', 'a', '(none)', '1.0'])));
    const flags = [{ key: 'f', variants: { on: { key: 'on' } }, segments: [{ conditions: [[{ selector: ['context', 'user', 'user_properties', 'p'], op, values: vals }]], variant: 'on' }] }]; const ctx = { user: { user_properties: { p: v } } };
    const page = (shared ||= (() => { const p = new Page(new Device(), { noDocument: true, noStorage: true }); p.load(t.sut.core); return p; })());
    page.g.__ctx = page.json(ctx); page.g.__flags = page.json(flags); let out;
    try { out = vm.runInContext('new __SUT.EvaluationEngine().evaluate(__ctx, __flags)', page.ctx, { timeout: LIMIT }); }
    catch (e) { if (e.code === 'ERR_SCRIPT_EXECUTION_TIMEOUT') t.violation('stalled', { op, length: v.length, value: String(v).slice(0, 80), vals: vals.map((x) => x.slice(0, 60)) }); else t.violation('throws', { op, err: String(e), value: String(v).slice(0, 200) }); shared = null; t.evaluated(); return; }

    let exp; if (v.length <= 5000) { exp = M.evaluate(ctx, flags).results.f !== undefined; t.check((out.f !== undefined) === exp, 'long-value-result', () => ({ op, vals: vals.map((x) => x.slice(0, 80)), value: String(v).slice(0, 120), exp })); }
    t.count(out.f ? 'matched' : 'unmatched'); t.evaluated(`${op}|${String(v).slice(0, 60)}|${v.length}|${vals.map((x) => x.slice(0, 20))}`); t.sample({ op, length: String(v).length, start: String(v).slice(0, 30) });
  } }],
};
