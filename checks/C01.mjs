import { bare, CORE_ENTRY } from '../lib/corelib.mjs';
import * as G from '../models/flags.gen.mjs';
import * as M from '../models/evaluation.mjs';
import { canon, freezeDeep } from '../lib/util.mjs';
const run = (t, context, flags, note) => {
  const { EvaluationEngine } = bare(t.sut.core);
  const expected = M.evaluate(context, flags);
  const before = canon([context, flags], true);
  freezeDeep(context); freezeDeep(flags);
  let actual; try { actual = new EvaluationEngine().evaluate(context, flags); } catch (e) { t.violation('evaluate-throws', { error: String(e), context, flags }); return null; }
  t.equal(actual, expected.results, 'wrong-variant', { note, context, flags });
  t.check(canon([context, flags], true) === before, 'inputs-modified', { context, flags });
  const n = Object.keys(actual).length; t.count('variants-returned', n); t.count('no-variant', flags.length - n);
  return { actual, expected };
};
export default {
  property: 'C01', bundles: { core: CORE_ENTRY },
  rule: 'Random flag lists x user contexts judged by an independent evaluator, plus the operator x property-value x filter-value matrix; non-trivial = distinct (flags, context) for which at least one segment condition was decided on a present property or a variant was returned.',
  requires: ['variants-returned', 'no-variant', 'matrix-true', 'matrix-false', 'result-dependency-used'],
  workloads: [
    { name: 'flags', quick: 12000, thorough: 400000, run(t) {
      const r = t.rng; const user = G.user(r); const context = { user }; if (r.bool(0.2)) context.page = { url: 'https://x.com/' + r.str(0, 4) };
      const flags = G.flags(r, r.int(1, 5));
      const o = run(t, context, flags);
      if (o) { if (flags.some((f) => f.segments.some((s) => (s.conditions || []).flat().some((c) => c.selector[0] === 'result')))) t.count('result-dependency-used'); t.evaluated(Object.keys(o.actual).length ? canon([context, flags]) : null); t.sample({ context, flags: flags.length, result: canon(o.actual) }); }
    } },
    { name: 'matrix', quick: 400, thorough: 4000, run(t) { // one operator against every word pair, single condition
      const r = t.rng; const { EvaluationEngine } = bare(t.sut.core); const eng = new EvaluationEngine();
      const op = M.OPS[t.index % M.OPS.length];
      for (let k = 0; k < 200; k++) {
        const v = k < 50 ? G.WORDS[k % G.WORDS.length] : G.propValue(r); const vals = G.values(r, op, v); const ctx = { user: { user_properties: {} } }; if (v !== undefined || r.bool()) ctx.user.user_properties.p = v;
        const f = [{ key: 'f', variants: { on: { key: 'on' } }, segments: [{ conditions: [[{ selector: ['context', 'user', 'user_properties', 'p'], op, values: vals }]], variant: 'on' }] }];
        const exp = M.evaluate(ctx, f).results.f !== undefined;
        const act = eng.evaluate(ctx, f).f !== undefined; t.count(exp ? 'matrix-true' : 'matrix-false');
        t.check(act === exp, 'operator:' + op, () => ({ op, value: v, filter: vals, actual: act, expected: exp }));
        t.evaluated(`${op}|${canon(v)}|${canon(vals)}`);
      }
    } },
    { name: 'versions', quick: 60, thorough: 2000, run(t) { // total order of versions
      const r = t.rng; const { EvaluationEngine } = bare(t.sut.core); const eng = new EvaluationEngine();
      const ver = () => `${r.int(0, 12)}.${r.int(0, 12)}` + (r.bool(0.8) ? `.${r.int(0, 12)}` + (r.bool(0.4) ? '-' + r.pick(['alpha', 'beta', 'beta.2', 'rc-1', '1', 'x.', 'A_b', '']) : '') : '');
      for (let k = 0; k < 80; k++) {
        const a = ver(), b = ver(); const op = 'version ' + r.pick(['less', 'less or equal', 'greater', 'greater or equal']);
        const ctx = { user: { version: a } }; const f = [{ key: 'f', variants: { on: { key: 'on' } }, segments: [{ conditions: [[{ selector: ['context', 'user', 'version'], op, values: [b] }]], variant: 'on' }] }];
        const exp = M.evaluate(ctx, f).results.f !== undefined; const act = eng.evaluate(ctx, f).f !== undefined;
        t.check(act === exp, 'version-order', () => ({ a, op, b, act, exp })); t.evaluated(`${a}${op}${b}`);
      }
    } },
  ],
};
