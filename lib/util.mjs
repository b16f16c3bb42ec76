// Canonical form that ignores realm/prototype and undefined-valued properties unless strict.
export function canon(v, strict = false, seen = new Set()) {
  if (v === undefined) return 'undefined';
  if (v === null) return 'null';
  const t = typeof v;
  if (t === 'string') return JSON.stringify(v);
  if (t === 'number') return Object.is(v, -0) ? '-0' : String(v);
  if (t === 'boolean' || t === 'bigint') return String(v);
  if (t === 'function') return `[function ${v.name}]`;
  if (t === 'symbol') return v.toString();
  if (seen.has(v)) return '[circular]';
  seen.add(v);
  let r;
  const tag = Object.prototype.toString.call(v);
  if (Array.isArray(v)) r = '[' + Array.from(v, (x) => canon(x, strict, seen)).join(',') + ']';
  else if (tag === '[object Set]') r = 'Set{' + [...v].map((x) => canon(x, strict, seen)).sort().join(',') + '}';
  else if (tag === '[object Map]') r = 'Map{' + [...v].map(([k, x]) => canon(k, strict, seen) + '=>' + canon(x, strict, seen)).sort().join(',') + '}';
  else if (tag === '[object Error]') r = `Error(${v.name}:${v.message})`;
  else {
    const ks = Object.keys(v).filter((k) => strict || v[k] !== undefined).sort();
    r = '{' + ks.map((k) => JSON.stringify(k) + ':' + canon(v[k], strict, seen)).join(',') + '}';
  }
  seen.delete(v);
  return r;
}
export const same = (a, b) => canon(a) === canon(b);
export const clone = (v) => (v === undefined ? undefined : JSON.parse(JSON.stringify(v)));
export const turn = () => new Promise((r) => setImmediate(r));
export function freezeDeep(o) {
  if (o && typeof o === 'object' && !Object.isFrozen(o)) { Object.freeze(o); for (const k of Object.keys(o)) freezeDeep(o[k]); }
  return o;
}
export const short = (v, n = 400) => { const s = typeof v === 'string' ? v : canon(v); return s.length > n ? s.slice(0, n) + '…' : s; };
