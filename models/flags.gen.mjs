// Generators of flags, users and contexts (hostile but well formed).
import { OPS } from './evaluation.mjs';
const PROPS = ['plan', 'age', 'ver', 'tags', 'active', 'nested', 'empty', 'zero', 'json', 'missing', 'nullish'];
export const WORDS = ['a', 'b', 'ab', 'Pro', 'pro', 'free', 'TRUE', 'true', 'False', 'false', '(none)', '0', '1', '2', '10', '1.0', '-3', '', ' ', '1.2', '1.2.0', '1.2.0-beta', '1.2.0-', '1.2.0-alpha.1', '1.10.3', '2.0', '01.2', 'v1.2.3', '1.2.3.4', '0x10', '1e3', 'NaN', 'null', 'é', '日本', '[', '["a","b"]', '[1,2]', '{}', 'constructor', '__proto__', 'on', 'off', 'control', 'treatment'];
const REGEX = ['^a', 'b$', '^$', '.*', '[0-9]+', 'pro|free', '\\d+\\.\\d+', '^1\\.2', '日', '^(?:true|on)$'];
export function propValue(r) {
  return r.weighted([
    [6, () => r.pick(WORDS)], [2, () => r.int(-3, 12)], [1, () => r.f() * 10], [2, () => r.bool()], [1, () => null], [1, () => undefined],
    [3, () => r.list(0, 4, () => r.pick(WORDS))], [1, () => r.list(0, 3, () => r.pick([1, 0, true, false, null, '', 'x', '0', { k: 1 }, ['n']]))],
    [2, () => JSON.stringify(r.list(0, 3, () => r.pick(WORDS)))], [1, () => ({ k: r.pick(WORDS), z: 1 })], [1, () => '[not json'], [1, () => r.unicode(0, 6)],
  ])();
}
export function user(r, { wide = true } = {}) {
  const u = {};
  if (r.bool(0.8)) u.user_id = r.weighted([[5, () => 'u' + r.int(0, 500)], [1, () => r.unicode(1, 8)], [1, () => '']])();
  if (r.bool(0.7)) u.device_id = 'd' + r.int(0, 500);
  for (const k of ['country', 'platform', 'version', 'language']) if (r.bool(0.35)) u[k] = r.pick(WORDS);
  if (r.bool(0.85)) { u.user_properties = {}; for (const p of PROPS) if (r.bool(0.55)) { const v = propValue(r); u.user_properties[p] = v; } }
  if (wide && r.bool(0.3)) u.groups = { org: r.list(1, 2, () => r.pick(WORDS)) };
  return u;
}
/** Filter values; sometimes made from the property value itself, so that set operators often hold or miss by one element. */
export function values(r, op, v) {
  if (Array.isArray(v) && v.length && !op.startsWith('regex') && r.bool(0.5)) { const l = v.filter((x) => x !== null && x !== undefined).map((x) => typeof x === 'object' ? JSON.stringify(x) : String(x)); if (r.bool(0.6)) return r.shuffle([...new Set(l)]); return r.shuffle([...l, ...r.subset(l, 0.3), ...(r.bool(0.3) ? [r.pick(WORDS)] : [])]); }
  if (op.startsWith('regex')) return r.list(0, 2, () => r.pick(REGEX));
  if (op.startsWith('set')) return [...new Set(r.list(0, 3, () => r.pick(WORDS)))];
  return r.list(r.bool(0.05) ? 0 : 1, 3, () => r.pick(WORDS));
}
export function selector(r, keys = []) {
  return r.weighted([
    [8, () => ['context', 'user', 'user_properties', r.pick(PROPS)]], [3, () => ['context', 'user', r.pick(['user_id', 'device_id', 'country', 'version', 'platform'])]],
    [2, () => ['context', 'user', 'user_properties', 'nested', 'k']], [1, () => ['context', 'user', 'user_properties', r.pick(['tags', 'nested', 'json']), r.pick(['0', '1', 'length'])]], [1, () => ['context', 'user', 'groups', 'org', '0']], [keys.length ? 4 : 0, () => ['result', r.pick(keys), r.pick(['key', 'value', 'metadata'])]],
    [keys.length ? 1 : 0, () => ['result', r.pick(keys), 'metadata', 'seg']], [1, () => []], [1, () => ['context', '', 'user']], [1, () => ['nope', 'x']], [1, () => ['context', 'user', 'groups', 'org']],
  ])();
}
export function cond(r, keys) { const op = r.bool(0.02) ? 'unknown op' : r.pick(OPS); return { selector: selector(r, keys), op, values: values(r, op) }; }
export const MAXD = 42949673;
export function bucketOf(r, variants) {
  const allocs = r.list(0, 3, () => {
    const s = r.int(0, 100), e = r.bool(0.1) ? s : r.int(s, 100);
    let cur = 0; const n = r.int(0, 3); const ds = [];
    for (let i = 0; i < n; i++) { const end = i === n - 1 && r.bool(0.8) ? MAXD : r.int(cur, MAXD); ds.push({ variant: r.pick(variants), range: [cur, end] }); cur = r.bool(0.8) ? end : Math.floor(end / 2); }
    return { range: r.bool(0.4) ? [0, 100] : [s, e], distributions: ds };
  });
  return { selector: r.weighted([[6, ['context', 'user', 'user_id']], [2, ['context', 'user', 'device_id']], [1, ['context', 'user', 'user_properties', 'plan']], [1, ['context', 'user', 'user_properties', 'nested']], [1, []]]), salt: r.bool(0.1) ? r.unicode(0, 5) : r.str(0, 9), allocations: allocs };
}
export function flag(r, key, keys) {
  const vk = r.subset(['off', 'on', 'control', 'treatment', 'A'], 0.7); if (!vk.length) vk.push('on');
  const variants = {};
  for (const k of vk) { variants[k] = { key: k }; if (r.bool(0.8)) variants[k].value = r.bool(0.1) ? null : r.pick([k, 'v-' + k, 1, true, { a: 1 }]); if (r.bool(0.3)) variants[k].payload = r.pick([1, 'p', { x: [1, 2] }]); if (r.bool(0.3)) variants[k].metadata = { default: k === 'off', var: k, shared: 'variant' }; }
  const targets = r.bool(0.15) ? [...vk, 'ghost'] : vk;
  const segments = r.list(r.bool(0.05) ? 0 : 1, 4, (i) => {
    const s = {};
    if (r.bool(0.7)) s.conditions = r.list(r.bool(0.05) ? 0 : 1, 3, () => r.list(r.bool(0.05) ? 0 : 1, 3, () => cond(r, keys)));
    if (r.bool(0.5)) s.bucket = bucketOf(r, targets);
    if (r.bool(0.7)) s.variant = r.pick(targets);
    if (r.bool(0.5)) { s.metadata = { segmentName: 'seg' + i }; if (r.bool(0.4)) { s.metadata.seg = 's' + i; s.metadata.shared = 'segment'; } }
    return s;
  });
  const f = { key, variants, segments };
  if (r.bool(0.5)) f.metadata = { flagVersion: r.int(1, 9), shared: 'flag', evaluationMode: 'local' };
  return f;
}
export function flags(r, n) { const keys = []; return Array.from({ length: n }, (_, i) => { const f = flag(r, 'flag-' + i, keys.slice()); keys.push(f.key); return f; }); }
