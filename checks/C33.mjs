import { Device } from '../lib/env.mjs';
import { canon, turn } from '../lib/util.mjs';
const ENTRY = `export * as storage from '@src/tag/util/storage'; export * as cookies from '@src/tag/consent/consent-cookie-storage'; export * from '@src/tag/consent/consent-gate';`;
const KEY = 'client-abc'; const IDENT = `EXP_${KEY}`; const DUP = `EXP_${KEY}_DEFAULT_USER_PROVIDER`;
const EXEMPT = ['amp-preview-mode', 'visual-editor-state'];
const ALL = [IDENT, IDENT, DUP, DUP, `EXP_${KEY}_REDIRECT`, `EXP_MKTG_${KEY}`, 'rtbt_store', 'other', '__proto__', 'constructor', '', ...EXEMPT];
const FIELDS = ['web_exp_id', 'web_exp_id_v2', 'device_id', 'first_seen', 'x'];
const fields = (r) => { const o = {}; for (const f of r.subset(FIELDS, 0.5)) o[f] = r.pick(['v' + r.int(1, 9), r.int(0, 99), null, '', false]); return o; };
const value = (r) => r.weighted([[5, () => fields(r)], [1, () => r.pick([null, 0, 'str', true, [], [1, { a: 2 }], 'null'])], [1, () => ({ deep: { list: [fields(r)] } })]])();
const parse = (j) => { try { return { v: JSON.parse(j) }; } catch { return null; } };
/** What a grant leaves under a key: the pending value, except identity fields the device already has. */
function merged(key, pending, device) {
  const keep = key === DUP ? ['first_seen'] : key === IDENT ? ['web_exp_id', 'web_exp_id_v2', 'device_id'] : null;
  if (!keep || !device) return pending; const d = parse(device), p = parse(pending); if (!d || !p || d.v === null || d.v === undefined) return pending;
  const out = { ...p.v }; for (const k of keep) if (d.v[k] !== undefined) out[k] = d.v[k]; return JSON.stringify(out);
}
const same = (a, b) => { if (a === b) return true; if (a === undefined || b === undefined || a === null || b === null) return false; const x = parse(a), y = parse(b); return !!x && !!y && canon(x.v) === canon(y.v); };
export default {
  property: 'C33', bundles: { tag: ENTRY },
  rule: 'storage: random histories of reads, writes and removals through the gated storage layer over identity, user-provider, ordinary, exempt and prototype-named keys in both storages, with consent changes, other-tab writes, mutated values, unserialisable values, storage faults and calls made from consent subscribers; a reference memory+device model is compared after every step and the device log is watched for any touch while consent is withheld. cookie: the same for the buffered cookie storage over a slow, failing backend with overlapping calls; jar: the same against real cookies. Non-trivial = distinct history in which a read, flush or discard was compared.',
  requires: ['faulty-flush', 'pending-write', 'pending-read-hit', 'pending-read-miss-device-has', 'pending-remove', 'grant-flushed', 'grant-merged', 'denied-discard', 'denied-write', 'denied-remove', 'exempt-write', 'regrant', 'fault', 'aliased', 'in-announcement', 'unserialisable', 'open', 'cookie-pending', 'cookie-flushed', 'cookie-merged', 'cookie-denied-mid-flush', 'cookie-op-mid-flush', 'cookie-fault', 'jar-flush'],
  workloads: [
    { name: 'storage', quick: 4000, thorough: 200000, run(t) {
      const r = t.rng; const d = new Device({ seed: t.index }); const p = d.page({ noDocument: true, seed: t.index }); const sut = p.load(t.sut.tag); const gate = sut.consentGate; const S = sut.storage;
      const maps = { localStorage: p.localMap(), sessionStorage: p.sessionMap() }; const area = { localStorage: 'local', sessionStorage: 'session' };
      const dev = { localStorage: new Map(), sessionStorage: new Map() }; const pend = new Map(); let required = false; let status = 'pending'; const ops = []; let mark = 0; let faulty = false; const KEYS = r.bool(0.7) ? r.subset(ALL, 0.3).concat([IDENT, DUP]) : ALL;
      const put = (ty, k, j) => { maps[ty].set(k, j); dev[ty].set(k, j); };
      for (let i = r.int(0, 5); i-- > 0;) put(r.pick(Object.keys(maps)), r.pick(KEYS), r.bool(0.85) ? JSON.stringify(value(r)) : r.pick(['{', 'null', '', '5', '[]', '"s"']));
      const withheld = () => required && status !== 'granted'; const pending = () => required && status === 'pending';
      // online: nothing but exempt keys reaches the device while consent is withheld (a removal may, once refused)
      const watch = (why) => { for (; mark < p.log.length; mark++) { const e = p.log[mark]; if (e.type !== 'storage' || e.op === 'access' || !withheld() || EXEMPT.includes(e.key)) continue; if (e.op === 'remove' && status === 'denied') continue; t.violation('device-touched-while-withheld', { e, why, status, ops }); } };
      const pk = (ty, k) => ty + '\u0000' + k;
      const settle = () => { for (const [key, j] of pend) { const [ty, k] = key.split('\u0000'); const w = merged(k, j, dev[ty].get(k)); t.count('grant-flushed'); if (w !== j) t.count('grant-merged'); if (!faulty) dev[ty].set(k, w); } pend.clear(); };
      const compare = (why) => { for (const ty of Object.keys(maps)) { const ks = new Set([...maps[ty].keys(), ...dev[ty].keys()]); for (const k of ks) if (!same(maps[ty].get(k), dev[ty].get(k))) { t.violation('device-differs', { why, ty, k, device: maps[ty].get(k), expected: dev[ty].get(k), ops }); if (maps[ty].has(k)) dev[ty].set(k, maps[ty].get(k)); else dev[ty].delete(k); } } };
      const step = (inner) => {
        const ty = r.pick(Object.keys(maps)); const k = r.pick(KEYS); const ex = EXEMPT.includes(k); const op = r.weighted([[4, 'set'], [4, 'get'], [1.5, 'remove']]); ops.push([inner ? 'in:' + op : op, ty, k]);
        try {
          if (op === 'set') {
            if (r.bool(0.04)) { const c = {}; c.c = c; t.count('unserialisable'); S.setStorageItem(ty, k, c); S.setStorageItem(ty, k, 10n); } else {
              const v = value(r); const j = JSON.stringify(v); S.setStorageItem(ty, k, v); if (v && typeof v === 'object' && r.bool(0.4)) { t.count('aliased'); if (Array.isArray(v)) v.push('late'); else v.late = 1; }
              if (withheld() && !ex) { if (pending()) { pend.set(pk(ty, k), j); t.count('pending-write'); } else t.count('denied-write'); } else { if (ex && withheld()) t.count('exempt-write'); if (!faulty) dev[ty].set(k, j); }
            }
          } else if (op === 'get') {
            const got = S.getStorageItem(ty, k); let want = null;
            if (withheld() && !ex) { const j = pend.get(pk(ty, k)); if (j !== undefined) { want = JSON.parse(j); t.count('pending-read-hit'); } else if (dev[ty].has(k)) t.count('pending-read-miss-device-has'); } else if (!faulty) { const q = parse(dev[ty].get(k)); if (q) want = q.v; if (!required) t.count('open'); }
            t.equal(got, want, 'read', { ty, k, status, required, ops }); if (got && typeof got === 'object') { got.touched = 1; t.count('aliased'); }
          } else { S.removeStorageItem(ty, k); if (pending() && !ex) { pend.delete(pk(ty, k)); t.count('pending-remove'); } else { if (withheld()) t.count('denied-remove'); if (!faulty) dev[ty].delete(k); } }
        } catch (e) { t.violation('threw', { op, ty, k, error: String(e && e.stack || e), ops }); }
        if (inner) t.count('in-announcement'); watch(op);
      };
      const early = r.bool(0.3);
      const listen = () => gate.manager.onChange((s) => { if (s === 'granted') settle(); else pend.clear(); if (!faulty) for (let i = r.int(1, 3); i-- > 0;) step(true); });
      if (early) listen();
      const n = r.int(4, 24);
      for (let i = 0; i < n; i++) {
        const k = r.weighted([[12, 'op'], [1.6, 'consent'], [1, 'require'], [0.8, 'tab'], [0.4, 'fault']]);
        if (k === 'op') step(false);
        else if (k === 'require') { if (!required) { required = true; gate.required = true; ops.push(['require']); } }
        else if (k === 'tab') { const ty = r.pick(Object.keys(maps)); const kk = r.pick(KEYS); put(ty, kk, JSON.stringify(value(r))); ops.push(['tab', ty, kk]); }
        else if (k === 'fault') { faulty = !faulty; d.storageFault = faulty ? () => true : null; t.count('fault'); ops.push(['fault', faulty]); }
        else {
          const s = r.pick(['granted', 'granted', 'denied']); if (s === status) continue; ops.push(['consent', s]); watch('before'); const had = pend.size; if (s === 'granted' && status === 'denied') t.count('regrant'); if (s === 'denied' && had) t.count('denied-discard');
          status = s; if (!early) { if (s === 'granted' && required) settle(); else if (s === 'denied') pend.clear(); else pend.clear(); } mark = p.log.length; const before = p.log.length; gate.manager.setStatus(s);
          if (s === 'granted' && !early) { const sets = new Map(); for (const e of p.log.slice(before)) if (e.type === 'storage' && e.op === 'set') sets.set(e.area + e.key, (sets.get(e.area + e.key) || 0) + 1); for (const [key, c] of sets) t.check(c === 1, 'flushed-twice', { key, ops }); }
          watch('consent');
        }
        compare(k); t.evaluated(canon([status, required, ops.slice(-10)]));
      }
      t.sample({ ops: ops.slice(0, 8) });
    } },
    { name: 'cookie', quick: 3000, thorough: 150000, async run(t) {
      const r = t.rng; const d = new Device({ seed: t.index }); const p = d.page({ noDocument: true, seed: t.index }); const sut = p.load(t.sut.tag); const gate = sut.consentGate; gate.required = true;
      const ops = []; const store = new Map(); let status = 'pending'; let model = new Map(); const pend = new Map(); let faulty = 0; let exact = true; const slow = () => r.pick([0, 0, 1, 2, 5]); const KS = ['EXP_a_identity', 'EXP_a_REDIRECT', 'EXP_MKTG_a', 'constructor'];
      const wait = async (k) => { for (let i = 0; i < k; i++) await null; };
      const io = (name, fn) => async (...a) => { await null; if (name !== 'get' || status !== 'granted') { if (name === 'set' ? status !== 'granted' : name === 'get' && status !== 'granted') t.violation(name + '-while-withheld', { a, status, ops }); } if (faulty && r.bool(faulty)) { t.count('cookie-fault'); exact = false; await wait(slow()); throw new Error('cookie io'); } const out = fn(...a); await wait(slow()); return out; };
      // the backend acts when it is called, as document.cookie does, and answers later
      const act = (name, fn) => (...a) => { if ((name === 'set' || name === 'get') && status !== 'granted') t.violation(name + '-while-withheld', { a, status, ops }); let fail = false; if (faulty && r.bool(faulty)) { t.count('cookie-fault'); fail = true; exact = false; } const out = fail ? undefined : fn(...a); const k = slow(); return (async () => { await wait(k); if (fail) throw new Error('cookie io'); return out; })(); };
      void io; const backend = { get: act('get', (k) => { const v = store.get(k); return v && typeof v === 'object' ? JSON.parse(JSON.stringify(v)) : v; }), set: act('set', (k, v) => { store.set(k, JSON.parse(JSON.stringify(v))); }), remove: act('remove', (k) => { store.delete(k); }) };
      const C = new sut.cookies.ConsentAwareCookieStorage(backend);
      const val = () => (r.bool(0.6) ? JSON.stringify(fields(r)) : r.pick([{ a: { b: r.int(1, 5) } }, 'plain', 'null', { list: [1, 2] }]));
      for (const k of r.subset(KS, 0.4)) { const v = val(); store.set(k, v); model.set(k, v); }
      const mergeId = (pv, dv) => { if (typeof pv !== 'string' || !dv || typeof dv !== 'string') return pv; const a = parse(dv), b = parse(pv); if (!a || !b || a.v === null) return pv; const o = { ...b.v }; for (const f of ['web_exp_id_v2', 'first_seen']) if (a.v[f] !== undefined) o[f] = a.v[f]; return JSON.stringify(o); };
      const eq = (a, b) => canon(a) === canon(b) || (typeof a === 'string' && typeof b === 'string' && same(a, b));
      const open = []; let flushing = false;
      const track = (pr, fn) => { const x = pr.then(fn, () => { exact = false; }); open.push(x); return x; };
      const op = (inner) => {
        const k = r.pick(KS); const kind = r.weighted([[4, 'set'], [4, 'get'], [1, 'remove']]); ops.push([(inner ? 'in:' : '') + kind, k, status]); const st = status; if (flushing && status === 'granted') t.count('cookie-op-mid-flush');
        if (kind === 'set') { const v = val(); const copy = JSON.parse(JSON.stringify(v)); const pr = C.set(k, v); if (v && typeof v === 'object') v.late = 1; if (status === 'pending') { pend.set(k, copy); t.count('cookie-pending'); } else if (status === 'granted') { model.set(k, typeof v === 'object' ? 'skip' : copy); if (typeof v === 'object') { exact = false; } } track(pr, () => {}); }
        else if (kind === 'get') { let want; if (status === 'pending') want = pend.get(k); else if (status === 'granted') want = model.get(k); const ok = exact; track(C.get(k), (got) => { if (st === 'granted' && (!ok || !exact || status !== 'granted')) return; t.check(eq(got, want), 'cookie-read', () => ({ k, got, want, st, ops })); if (got && typeof got === 'object') got.touched = 1; }); }
        else { if (status === 'pending') pend.delete(k); else model.delete(k); track(C.remove(k), () => {}); }
      };
      const listen = r.bool(0.3); if (listen) gate.manager.onChange(() => { for (let i = r.int(1, 2); i-- > 0;) op(true); });
      const n = r.int(4, 20);
      for (let i = 0; i < n; i++) {
        const a = r.weighted([[10, 'op'], [2, 'consent'], [2, 'wait'], [2, 'drain'], [0.3, 'fault']]);
        if (a === 'op') op(false);
        else if (a === 'wait') await wait(r.int(1, 4));
        else if (a === 'drain') { await Promise.all(open.splice(0)); await turn(); await turn(); flushing = false; if (exact) for (const k of KS) t.check(eq(store.get(k), model.get(k)), 'cookie-device', () => ({ k, got: store.get(k), want: model.get(k), status, ops })); else { model = new Map(store); exact = !faulty; } t.evaluated(canon([status, ops.slice(-10)])); }
        else if (a === 'fault') { faulty = faulty ? 0 : 0.3; }
        else { const s = r.pick(['granted', 'denied']); if (s === status) continue; ops.push(['consent', s]); if (s === 'denied' && flushing) { t.count('cookie-denied-mid-flush'); exact = false; } if (s === 'denied') { if (status === 'granted' && open.length) exact = false; pend.clear(); } else if (status === 'pending') { for (const [k, v] of pend) { const m = mergeId(v, model.get(k)); t.count('cookie-flushed'); if (m !== v) t.count('cookie-merged'); model.set(k, m); } flushing = pend.size > 0; pend.clear(); } else if (open.length) exact = false; status = s; gate.manager.setStatus(s); }
      }
      await Promise.all(open); await turn();
    } },
    { name: 'faulty-flush', quick: 700, thorough: 30000, async run(t) { // what cannot be written costs nothing but itself
      const r = t.rng; const d = new Device({ seed: t.index }); const p = d.page({ noDocument: true, seed: t.index }); const sut = p.load(t.sut.tag); const gate = sut.consentGate; gate.required = true; const bad = new Set(r.subset(['k0', 'k1', 'k2', 'k3'], 0.4)); const how = r.pick(['get', 'set', 'both']);
      const store = new Map(); const C = new sut.cookies.ConsentAwareCookieStorage({ get: async (k) => { if (bad.has(k) && how !== 'set') throw new Error('blocked'); return store.get(k); }, set: async (k, v) => { if (bad.has(k) && how !== 'get') throw new Error('blocked'); store.set(k, v); }, remove: async (k) => { store.delete(k); } });
      const wrote = new Map(); const put = new Map(); for (const k of r.subset(['k0', 'k1', 'k2', 'k3'], 0.7)) { const v = r.pick(['s' + r.int(1, 9), 7, true]); await C.set(k, v); wrote.set(k, v); }
      for (const k of r.subset(['k0', 'k1', 'k2', 'k3'], 0.7)) { const v = { n: r.int(1, 9) }; sut.storage.setStorageItem('localStorage', k, v); put.set(k, v); }
      d.storageFault = (e) => e.op === 'set' && bad.has(e.key);
      let threw = null; try { gate.manager.setStatus('granted'); } catch (e) { threw = e; } for (let i = 0; i < 8; i++) await turn(); d.storageFault = null; if (bad.size && wrote.size) t.count('faulty-flush');
      t.check(!threw, 'grant-threw', { e: String(threw) });
      for (const [k, v] of wrote) if (bad.has(k)) t.check(!store.has(k), 'blocked-cookie-written', { k }); else t.check(canon(store.get(k)) === canon(v), 'cookie-lost-to-another', { k, v, got: store.get(k), bad: [...bad], how, order: [...wrote.keys()] });
      for (const [k, v] of put) { const got = p.localMap().get(k); if (bad.has(k)) t.check(got === undefined, 'blocked-item-written', { k }); else t.check(got !== undefined && canon(JSON.parse(got)) === canon(v), 'item-lost-to-another', { k, v, got, bad: [...bad], order: [...put.keys()] }); }
      t.evaluated(canon([[...bad], how, [...wrote.keys()], [...put.keys()]]));
    } },
    { name: 'jar', quick: 600, thorough: 20000, async run(t) {
      const r = t.rng; const d = new Device({ seed: t.index }); const p = d.page({ url: 'https://shop.example.com/', seed: t.index }); const sut = p.load(t.sut.tag); sut.consentGate.required = true; const dom = r.pick(['.example.com', undefined]);
      const C = sut.cookies.createCookieStorage(p.json({ ...(dom && { domain: dom }), sameSite: 'Lax', expirationDays: 365 })); const key = `EXP_${KEY}_identity`;
      const seed = r.bool() ? JSON.stringify(fields(r)) : undefined; sut.consentGate.required = false; if (seed) await C.set(key, seed); sut.consentGate.required = true; const base = d.jar.log.length; const at = p.log.length;
      const v = JSON.stringify(fields(r)); const end = r.pick(['granted', 'denied']); t.equal(await C.get(key), undefined, 'jar-read-pending', { seed }); await C.set(key, v); t.equal(await C.get(key), v, 'jar-read-own', { v });
      t.check(p.log.slice(at).every((e) => e.type !== 'cookie'), 'jar-touched-while-pending', { log: p.log.slice(at) }); sut.consentGate.manager.setStatus(end); await turn(); await turn();
      if (end === 'denied') { t.check(d.jar.log.length === base, 'jar-written-after-denial', { log: d.jar.log.slice(base) }); t.equal(await C.get(key), undefined, 'jar-read-denied'); } else { t.count('jar-flush'); const want = seed ? (() => { const o = JSON.parse(v), s = JSON.parse(seed); for (const f of ['web_exp_id_v2', 'first_seen']) if (s[f] !== undefined) o[f] = s[f]; return o; })() : JSON.parse(v); t.equal(JSON.parse((await C.get(key)) ?? 'null'), want, 'jar-flush', { seed, v }); t.check(d.jar.log.slice(base).filter((e) => e.op === 'set').length === 1, 'jar-flushed-once', { log: d.jar.log.slice(base) }); }
      t.evaluated(canon([seed, v, end, dom])); p.close();
    } },
  ],
};
