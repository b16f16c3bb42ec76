import { bare, CORE_ENTRY } from '../lib/corelib.mjs';
import * as G from '../models/flags.gen.mjs';
import * as M from '../models/evaluation.mjs';
import { canon, freezeDeep } from '../lib/util.mjs';
export default {
  property: 'C03', bundles: { core: CORE_ENTRY },
  rule: 'Random flag lists and contexts (15% with bucket targets the flag does not define); traces compared with untraced evaluation and with an independent evaluator step by step. Non-trivial = distinct (flags, context) with at least one step.',
  requires: ['steps', 'matched', 'unmatched', 'bucketed-to-undefined-variant'],
  workloads: [{ name: 'traces', quick: 10000, thorough: 300000, run(t) {
    const r = t.rng; const { EvaluationEngine } = bare(t.sut.core); const context = { user: G.user(r) }; const flags = G.flags(r, r.int(1, 4));
    const model = M.evaluate(context, flags); freezeDeep(context); freezeDeep(flags);
    const eng = new EvaluationEngine(); const plain = eng.evaluate(context, flags); const { results, traces } = eng.evaluateWithTraces(context, flags);
    t.equal(results, plain, 'results-differ', { context, flags });
    t.equal(Object.keys(traces).sort(), flags.map((f) => f.key).sort(), 'trace-keys');
    const seen = {}; // results visible to conditions while a flag is evaluated
    for (const f of flags) {
      const tr = traces[f.key]; const d = model.detail[f.key]; const root = { context, result: seen };
      const at = () => ({ flag: f, context, trace: tr });
      t.check(tr.flagKey === f.key, 'flag-key', at); t.check(tr.matched === (f.key in plain), 'matched-flag', at); t.count(tr.matched ? 'matched' : 'unmatched');
      t.check(tr.matchedSegment === (d.winner ? d.winner.s.metadata?.segmentName : undefined), 'winning-segment', at);
      if (t.check(tr.steps.length === f.segments.length, 'step-count', at)) f.segments.forEach((s, i) => {
        const st = tr.steps[i]; const m = d.steps[i]; t.count('steps');
        t.equal(st.segmentMetadata, s.metadata, 'step-metadata', at());
        t.check(st.conditionsPassed === m.pass, 'step-conditions', at); t.check(st.bucketed === (m.vk !== undefined) && st.bucketVariant === m.vk, 'step-bucket', at);
        t.check(st.matched === (m.pass && m.vk !== undefined), 'step-matched', at); if (m.vk !== undefined && !f.variants[m.vk]) t.count('bucketed-to-undefined-variant');
        if (s.conditions) for (const [gi, g] of (st.conditionResult || []).entries()) for (const [ci, c] of (g || []).entries()) {
          const cond = s.conditions[gi][ci]; t.equal(c.condition, cond, 'cond-identity', at()); t.check(c.matched === M.condition(root, cond), 'cond-outcome', at); t.equal(c.propValue, M.path(root, cond.selector), 'cond-value', at());
        }
        if (s.conditions && m.pass) { const last = st.conditionResult?.[st.conditionResult.length - 1]; t.check(Array.isArray(last) || !!last && last.every((c) => c.matched), 'passed-without-group', at); const g = s.conditions[st.conditionResult.length - 1]; t.check(!!g && last.length === g.length && last.every((c) => c.matched), 'passing-group-incomplete', at); }
      });
      if (f.key in model.results) seen[f.key] = model.results[f.key];
    }
    t.evaluated(flags.some((f) => f.segments.length) ? canon([context, flags]) : null); t.sample({ flags: flags.length, traces: canon(traces).slice(0, 300) });
  } }],
};
