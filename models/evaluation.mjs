// Independent reference model of flag evaluation, written from the targeting semantics.
export function murmur3_32(str, seed = 0) {
  // MurmurHash3 x86 32-bit over the UTF-8 bytes, with BigInt arithmetic (deliberately unlike the implementation).
  const bytes = Buffer.from(str, 'utf8'); const M = 0xffffffffn;
  const rotl = (x, r) => ((x << BigInt(r)) | (x >> BigInt(32 - r))) & M;
  const c1 = 0xcc9e2d51n, c2 = 0x1b873593n; let h = BigInt(seed >>> 0); const nb = bytes.length >> 2;
  for (let i = 0; i < nb; i++) {
    let k = BigInt(bytes.readUInt32LE(i * 4)); k = (k * c1) & M; k = rotl(k, 15); k = (k * c2) & M; h ^= k; h = rotl(h, 13); h = (h * 5n + 0xe6546b64n) & M;
  }
  let k = 0n; const tail = bytes.subarray(nb * 4);
  for (let i = tail.length - 1; i >= 0; i--) k = (k << 8n) | BigInt(tail[i]);
  if (tail.length) { k = (k * c1) & M; k = rotl(k, 15); k = (k * c2) & M; h ^= k; }
  h ^= BigInt(bytes.length); h ^= h >> 16n; h = (h * 0x85ebca6bn) & M; h ^= h >> 13n; h = (h * 0xc2b2ae35n) & M; h ^= h >> 16n;
  return Number(h);
}
const absent = (v) => v === undefined || v === null;
export function path(root, sel) {
  if (!sel || !sel.length) return undefined;
  let v = root;
  for (const s of sel) { if (!s || !v || typeof v !== 'object') return undefined; v = v[s]; }
  return absent(v) ? undefined : v;
}
const text = (v) => (absent(v) ? undefined : typeof v === 'object' ? JSON.stringify(v) : String(v));
function asList(v) {
  let arr = null;
  if (Array.isArray(v)) arr = v;
  else { const s = String(v); if (s[0] === '[') { try { const p = JSON.parse(s); if (Array.isArray(p)) arr = p; } catch { /* plain string */ } } }
  return arr && arr.map(text).filter((x) => x);
}
const isBoolWord = (s) => /^(true|false)$/i.test(s);
function equalsAny(value, list) {
  if (list.some(isBoolWord) && isBoolWord(value)) return list.some((f) => f.toLowerCase() === value.toLowerCase());
  return list.includes(value);
}
const rel = { less: (c) => c < 0, 'less or equal': (c) => c <= 0, greater: (c) => c > 0, 'greater or equal': (c) => c >= 0 };
function parseVersion(s) {
  const m = /^(\d+)\.(\d+)(?:\.(\d+)(-(?:[-\w]+(?:\.[-\w]+)*\.?)?)?)?$/.exec(s);
  return m ? { n: [Number(m[1]), Number(m[2]), Number(m[3] || 0)], pre: m[4] || '' } : null;
}
function cmpVersion(a, b) {
  for (let i = 0; i < 3; i++) if (a.n[i] !== b.n[i]) return a.n[i] < b.n[i] ? -1 : 1;
  if (a.pre === b.pre) return 0; if (!a.pre) return 1; if (!b.pre) return -1; return a.pre < b.pre ? -1 : 1;
}
const cmpStr = (a, b) => (a < b ? -1 : a > b ? 1 : 0);
function scalar(value, op, vals) {
  switch (op) {
    case 'is': return equalsAny(value, vals);
    case 'is not': return !equalsAny(value, vals);
    case 'contains': return vals.some((f) => value.toLowerCase().indexOf(f.toLowerCase()) >= 0);
    case 'does not contain': return !vals.some((f) => value.toLowerCase().indexOf(f.toLowerCase()) >= 0);
    case 'regex match': return vals.some((f) => new RegExp(f).test(value));
    case 'regex does not match': return !vals.some((f) => new RegExp(f).test(value));
  }
  if (rel[op]) {
    // Numeric comparison; anything that is not a number compares false.
    if (!vals.length) return false;
    const x = Number(value);
    return vals.some((f) => { const y = Number(f); return !Number.isNaN(x) && !Number.isNaN(y) && rel[op](x < y ? -1 : x > y ? 1 : 0); });
  }
  const vop = op.startsWith('version ') ? op.slice(8) : null;
  if (vop && rel[vop]) {
    const v = parseVersion(value); const fs = vals.map(parseVersion).filter(Boolean);
    if (!v || !fs.length) return vals.some((f) => rel[vop](cmpStr(value, f)));
    return fs.some((f) => rel[vop](cmpVersion(v, f)));
  }
  return false;
}
const setEq = (a, b) => { const A = new Set(a), B = new Set(b); return A.size === B.size && [...A].every((x) => B.has(x)); };
const containsAll = (props, vals) => props.length >= vals.length && vals.every((f) => equalsAny(f, props));
const containsAny = (props, vals) => vals.some((f) => equalsAny(f, props));
export function condition(root, c) {
  const v = path(root, c.selector);
  if (v === undefined) {
    const none = c.values.includes('(none)');
    if (['is not', 'does not contain', 'set does not contain', 'set does not contain any'].includes(c.op)) return !none;
    if (['set is not', 'regex match', 'regex does not match'].includes(c.op)) return false;
    if (KNOWN_OPS.has(c.op)) return none;
    return false;
  }
  const list = asList(v);
  switch (c.op) {
    case 'set is': return !!list && setEq(list, c.values);
    case 'set is not': return !!list && !setEq(list, c.values);
    case 'set contains': return !!list && containsAll(list, c.values);
    case 'set does not contain': return !!list && !containsAll(list, c.values);
    case 'set contains any': return !!list && containsAny(list, c.values);
    case 'set does not contain any': return !!list && !containsAny(list, c.values);
  }
  return list ? list.some((x) => scalar(x, c.op, c.values)) : scalar(text(v), c.op, c.values);
}
export const OPS = ['is', 'is not', 'contains', 'does not contain', 'less', 'less or equal', 'greater', 'greater or equal', 'version less', 'version less or equal', 'version greater', 'version greater or equal', 'set is', 'set is not', 'set contains', 'set does not contain', 'set contains any', 'set does not contain any', 'regex match', 'regex does not match'];
const KNOWN_OPS = new Set(OPS);
export const conditions = (root, dnf) => dnf.some((g) => g.every((c) => condition(root, c)));
export function bucket(root, seg) {
  if (!seg.bucket) return seg.variant;
  const val = text(path(root, seg.bucket.selector));
  if (!val) return seg.variant;
  const h = murmur3_32(`${seg.bucket.salt}/${val}`); const a = h % 100; const d = (h - a) / 100;
  for (const al of seg.bucket.allocations) if (a >= al.range[0] && a < al.range[1]) for (const di of al.distributions) if (d >= di.range[0] && d < di.range[1]) return di.variant;
  return seg.variant;
}
/** Returns {results, detail: {flagKey: {winner, steps}}} */
export function evaluate(context, flags) {
  const results = {}; const detail = {};
  const root = { context, result: results };
  for (const f of flags) {
    let winner = null; const steps = [];
    for (const s of f.segments) {
      const pass = !s.conditions || conditions(root, s.conditions);
      const vk = pass ? bucket(root, s) : undefined;
      steps.push({ pass, vk });
      if (!winner && vk !== undefined && f.variants[vk]) winner = { s, v: f.variants[vk] };
    }
    detail[f.key] = { winner, steps };
    if (winner) results[f.key] = { ...winner.v, metadata: { ...f.metadata, ...winner.s.metadata, ...winner.v.metadata } };
  }
  return { results, detail };
}
