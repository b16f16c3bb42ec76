import { bare, CORE_ENTRY } from '../lib/corelib.mjs';
import { BROWSER_ENTRY, sdkPage, recLogger } from '../lib/client.mjs';
import { canon, freezeDeep } from '../lib/util.mjs';
const NAMES = ['a', 'b', 'c', 'd', 'e', 'f', 'g', 'h', 'constructor', 'toString', 'valueOf', 'hasOwnProperty', '1', '2'];
export default {
  property: 'C04', bundles: { core: CORE_ENTRY, browser: BROWSER_ENTRY },
  rule: 'Random dependency graphs over up to 14 flags (DAGs, graphs with cycles, missing nodes, duplicate edges, deep chains), ordered for all or for requested keys; non-trivial = distinct graph with at least one edge.',
  requires: ['acyclic', 'cyclic', 'missing-dep', 'requested-keys', 'prototype-key', 'cycle-elsewhere', 'cycle-reached'],
  workloads: [{ name: 'graphs', quick: 15000, thorough: 500000, run(t) {
    const r = t.rng; const { topologicalSort } = bare(t.sut.core); const n = r.int(1, 10); const names = r.shuffle(NAMES).slice(0, n); const mode = r.pick(['dag', 'dag', 'any', 'chain']);
    const flags = {}; let edges = 0;
    names.forEach((k, i) => { let deps = []; if (mode === 'dag') deps = r.subset(names.slice(0, i), 0.35); else if (mode === 'any') deps = r.subset(names, 0.18); else if (i) deps = [names[i - 1]]; if (r.bool(0.15)) { deps.push(r.pick(['ghost', 'nope', 'isPrototypeOf'])); t.count('missing-dep'); } if (r.bool(0.1) && deps.length) deps.push(deps[0]); deps = r.shuffle(deps); edges += deps.length; Object.defineProperty(flags, k, { value: { key: k, variants: {}, segments: [], ...(deps.length || r.bool() ? { dependencies: deps } : {}) }, enumerable: true, configurable: true, writable: true }); });
    const ordered = {}; for (const k of r.shuffle(names)) ordered[k] = flags[k];
    const keys = r.bool(0.5) ? undefined : r.list(0, 4, () => r.pick([...names, 'ghost', 'constructor', 'toString'])); if (keys) t.count('requested-keys'); if (keys && keys.some((k) => !Object.hasOwn(flags, k) && k in {})) t.count('prototype-key');
    const has = (k) => Object.prototype.hasOwnProperty.call(flags, k); const dep = (k) => flags[k].dependencies || [];
    const roots = (keys || Object.keys(ordered)).filter(has); const reach = new Set(); const stack = [...roots]; while (stack.length) { const k = stack.pop(); if (reach.has(k)) continue; reach.add(k); dep(k).filter(has).forEach((d) => stack.push(d)); }
    const color = new Map(); const cyc = (k) => { color.set(k, 1); for (const d of dep(k).filter(has)) { if (color.get(d) === 1) return true; if (!color.has(d) && cyc(d)) return true; } color.set(k, 2); return false; };
    const cyclic = [...reach].some((k) => !color.has(k) && cyc(k));
    freezeDeep(ordered); let out, err; try { out = topologicalSort(ordered, keys); } catch (e) { err = e; }
    const at = () => ({ graph: Object.fromEntries(names.map((k) => [k, dep(k)])), keys, out: out?.map((f) => f?.key ?? String(f)), err: err && String(err) });
    if (cyclic) { t.count('cyclic'); t.check(!!err, 'cycle-not-reported', at); } else {
      t.count('acyclic'); if (t.check(!err, 'spurious-error', at)) {
        const ks = out.map((f) => f.key); t.check(out.every((f) => has(f.key) && f === ordered[f.key]), 'foreign-element', at); t.equal(ks.slice().sort(), [...reach].sort(), 'wrong-set', at());
        const pos = new Map(ks.map((k, i) => [k, i])); for (const k of ks) if (has(k)) for (const d of dep(k).filter(has)) t.check(pos.get(d) < pos.get(k), 'dependency-after', at);
      }
    }
    t.evaluated(edges ? canon(at()) : null); t.sample(at());
  } },
  { name: 'client', quick: 400, thorough: 8000, async run(t) { // a cycle only concerns the flags that lead to it
    const r = t.rng; const { page, sut } = sdkPage(t, {}); const names = r.shuffle(['a', 'b', 'c', 'd', 'e', 'f', 'g']).slice(0, r.int(3, 7)); const dep = Object.fromEntries(names.map((k) => [k, r.subset(names, 0.2)]));
    const flags = r.shuffle(names).map((k) => ({ key: k, dependencies: dep[k], variants: { on: { key: 'on', value: 'v-' + k } }, segments: [{ variant: 'on' }], metadata: { evaluationMode: 'local' } }));
    const client = new sut.ExperimentClient('client-abcdef', { ...page.json({ initialFlags: JSON.stringify(flags), pollOnStart: false, fetchOnStart: false, automaticExposureTracking: false, retryFetchOnFailure: false }), loggerProvider: recLogger() });
    const reaches = (k) => { const seen = new Set(); const st = [k]; while (st.length) { const x = st.pop(); if (seen.has(x)) continue; seen.add(x); st.push(...dep[x]); } return seen; }; const onCycle = (k) => dep[k].some((d) => reaches(d).has(k)); const bad = (k) => [...reaches(k)].some(onCycle); const any = names.some(onCycle);
    for (const k of r.shuffle(names)) { let v, err; try { v = client.variant(k, 'fb'); } catch (e) { err = e; } const at = () => ({ dep, k, v, err: err && String(err) }); if (!t.check(!err, 'variant-throws', at)) continue; if (bad(k)) { t.count('cycle-reached'); continue; } if (any) t.count('cycle-elsewhere'); t.check(v.value === 'v-' + k, 'unrelated-cycle', at); }
    t.evaluated(names.some((k) => dep[k].length) ? canon(dep) : null); page.close();
  } },
  { name: 'deep', quick: 8, thorough: 40, run(t) { const { topologicalSort } = bare(t.sut.core); const n = 200 + t.index * 40; const f = {}; for (let i = 0; i < n; i++) f['k' + i] = { key: 'k' + i, variants: {}, segments: [], dependencies: i + 1 < n ? ['k' + (i + 1)] : [] }; const o = topologicalSort(f); t.equal(o.map((x) => x.key), Array.from({ length: n }, (_, i) => 'k' + (n - 1 - i)), 'deep-chain'); t.evaluated('deep' + n); } }],
};
