import { bare, CORE_ENTRY } from '../lib/corelib.mjs';
import { murmur3_32, evaluate } from '../models/evaluation.mjs';
import * as G from '../models/flags.gen.mjs';
import { canon } from '../lib/util.mjs';
const SEL = ['context', 'user', 'user_id'];
const flagOf = (salt, allocations, variant, vs) => [{ key: 'f', variants: Object.fromEntries(vs.map((v) => [v, { key: v }])), segments: [{ bucket: { selector: SEL, salt, allocations }, variant }] }];
const get = (eng, id, f) => eng.evaluate({ user: { user_id: id } }, f).f?.key;
export default {
  property: 'C02', bundles: { core: CORE_ENTRY },
  rule: 'Every bucketing decision is recomputed from an independent Murmur3 (BigInt) and the ranges; boundary workloads place a range edge exactly on and next to the hash of the value; proportions use a 5-sigma test over >=8000 ids. Non-trivial = distinct (salt, value, ranges).',
  requires: ['boundary-inside', 'boundary-outside', 'multibyte', 'proportion-tests', 'default-variant', 'sticky'],
  workloads: [
    { name: 'hash', quick: 400, thorough: 8000, run(t) {
      const { hash32x86 } = bare(t.sut.core); const r = t.rng;
      for (let i = 0; i < 20; i++) { const s = r.bool(0.15) ? r.str(200, 700) : r.bool() ? r.str(0, 40) : r.unicode(0, 20); const seed = r.bool(0.7) ? 0 : r.u32() | 0; if (/[^\x00-\x7f]/.test(s)) t.count('multibyte'); if (seed === 0) { const a = hash32x86(s) >>> 0; t.check(a === murmur3_32(s), 'hash', () => ({ s, a, e: murmur3_32(s) })); } t.evaluated('h' + s); }
    } },
    { name: 'boundaries', quick: 2500, thorough: 60000, run(t) {
      const eng = new (bare(t.sut.core).EvaluationEngine)(); const r = t.rng;
      const salt = r.bool(0.2) ? r.unicode(0, 6) : r.str(0, 8); const id = r.bool(0.3) ? r.unicode(1, 12) : r.str(1, 20);
      if (/[^\x00-\x7f]/.test(id + salt)) t.count('multibyte');
      const h = murmur3_32(`${salt}/${id}`); const a = h % 100, d = Math.floor(h / 100);
      const cases = [[a, a + 1, d, d + 1, 1], [a + 1, 101, 0, G.MAXD, 0], [0, a, 0, G.MAXD, 0], [a, a, 0, G.MAXD, 0], [0, 100, d + 1, G.MAXD + 2, 0], [0, 100, 0, d, 0], [0, 100, 0, d + 1, 1], [0, 100, d, G.MAXD + 2, 1], [0, a + 1, 0, G.MAXD + 2, 1]];
      for (const [s, e, ds, de, inside] of cases) {
        for (const def of ['off', undefined]) {
          const f = flagOf(salt, [{ range: [s, e], distributions: [{ variant: 'on', range: [ds, de] }] }], def, ['on', 'off']);
          const act = get(eng, id, f); const exp = inside ? 'on' : def; t.count(inside ? 'boundary-inside' : 'boundary-outside'); if (!inside && def) t.count('default-variant');
          t.check(act === exp, inside ? 'edge-excluded' : 'edge-included', () => ({ salt, id, a, d, range: [s, e], dist: [ds, de], act, exp })); t.evaluated(`${salt}|${id}|${s}|${e}|${ds}|${de}|${def}`);
        }
      }
      // first allocation containing the value wins, and later allocations are tried when its distributions miss
      const f2 = flagOf(salt, [{ range: [a, a + 1], distributions: [{ variant: 'x', range: [d + 1, d + 2] }] }, { range: [0, 100], distributions: [{ variant: 'y', range: [0, G.MAXD + 2] }] }], 'off', ['x', 'y', 'off']);
      t.check(get(eng, id, f2) === 'y', 'allocation-fallthrough', () => ({ salt, id, got: get(eng, id, f2) }));
      // sticky: a fresh engine, other user fields, repeated
      const f3 = flagOf(salt, [{ range: [0, 50], distributions: [{ variant: 'x', range: [0, 21474836] }, { variant: 'y', range: [21474836, G.MAXD + 2] }] }], 'off', ['x', 'y', 'off']);
      const first = get(eng, id, f3); const E = bare(t.sut.core).EvaluationEngine;
      for (let k = 0; k < 3; k++) { const o = new E().evaluate({ user: { user_id: id, device_id: 'd' + k, user_properties: { k } } }, f3).f?.key; t.check(o === first, 'not-sticky', () => ({ salt, id, o, first })); t.count('sticky'); }
      // widening never moves users already inside
      for (const wide of [60, 75, 100]) { const f4 = flagOf(salt, [{ range: [0, wide], distributions: f3[0].segments[0].bucket.allocations[0].distributions }], 'off', ['x', 'y', 'off']); const w = get(eng, id, f4); if (first !== 'off') t.check(w === first, 'widening-moved-user', () => ({ salt, id, first, w })); }
    } },
    { name: 'default', quick: 300, thorough: 3000, run(t) {
      const eng = new (bare(t.sut.core).EvaluationEngine)(); const r = t.rng;
      const v = r.pick([undefined, null, '', 0, false, NaN, 5, true, [], ['a', 'b'], { k: 1 }, 'x', ' ']); const f = flagOf(r.str(0, 5), [{ range: [0, 100], distributions: [{ variant: 'on', range: [0, G.MAXD + 2] }] }], r.pick(['off', undefined]), ['on', 'off']);
      const ctx = { user: { user_id: v } }; const exp = evaluate(ctx, f).results.f?.key; const act = eng.evaluate(ctx, f).f?.key; t.equal(act, exp, 'default-value', { v }); t.count('default-variant'); t.evaluated(canon(v) + canon(f));
    } },
    { name: 'proportions', quick: 16, thorough: 200, run(t) {
      const eng = new (bare(t.sut.core).EvaluationEngine)(); const r = t.rng; const N = 8000; const salt = r.str(4, 10) + t.index; const pre = r.str(0, 5);
      const roll = r.int(10, 100); const k = r.int(2, 4); const cuts = [0, ...Array.from({ length: k - 1 }, () => r.int(1, 99) / 100).sort((a, b) => a - b), 1];
      const dist = []; for (let i = 0; i < k; i++) dist.push({ variant: 'v' + i, range: [Math.floor(cuts[i] * 42949673), Math.floor(cuts[i + 1] * 42949673)] });
      const f = flagOf(salt, [{ range: [0, roll], distributions: dist }], 'off', [...dist.map((d) => d.variant), 'off']); const n = {};
      for (let i = 0; i < N; i++) { const v = get(eng, pre + i, f); n[v] = (n[v] || 0) + 1; }
      const exps = { off: 1 - roll / 100 }; dist.forEach((d, i) => { exps[d.variant] = (roll / 100) * (cuts[i + 1] - cuts[i]); });
      for (const [v, p] of Object.entries(exps)) { const sd = Math.sqrt(N * p * (1 - p)); const got = n[v] || 0; t.check(Math.abs(got - N * p) <= 5 * sd + 3, 'proportion', () => ({ salt, v, p, got, N })); t.count('proportion-tests'); }
      t.evaluated(`${salt}|${roll}|${cuts}`); t.sample({ salt, roll, cuts, observed: n });
    } },
  ],
};
