import { BROWSER_ENTRY, sdkPage, settled, recLogger, b64, kind } from '../lib/client.mjs';
import { canon, clone as copy } from '../lib/util.mjs';
const clone = (v) => (v === undefined ? undefined : copy(v));
const NAMES = [undefined, '$default_instance', 'a', 'b', 'a.b', 'constructor', 'hasOwnProperty', 'web', 'A'];
const KEYS = ['client-aaaaaaaaaaaaaaaa', 'client-bbbbbbbbbbbbbbbb', '0123456789abcdef', '0123456789abcdeg', 'web'];
const nameOf = (n) => n || '$default_instance';
const utf8b64 = (s) => Buffer.from(s, 'utf8').toString('base64');
const newCookie = (o) => utf8b64(encodeURIComponent(JSON.stringify(o)));
export default {
  property: 'C21', bundles: { browser: BROWSER_ENTRY },
  rule: 'registry: random sequences of initialize calls over key, instance name, flavour and configuration on one page; the returned clients must be identical exactly when the (name, key, flavour) triple is, keep their first configuration and share no user. connectors: the same for connector names, including prototype member names. analytics: clients created through Amplitude analytics on several connectors; identities change, receivers are attached late, time passes, persisted analytics state of every format (and rubbish) exists beforehand. Every variants request must carry the identity of its connector, none may leave before an identity or ten seconds, a change must refetch exactly once and only when configured, and every exposure must reach the receiver of its own connector once. Non-trivial = distinct step judged.',
  requires: ['same-client', 'other-client', 'kept-config', 'same-connector', 'other-connector', 'prototype-name', 'waited', 'timed-out', 'refetched', 'not-refetched', 'other-connector-change', 'sent-identity', 'bridge-delivered', 'bridge-late', 'persisted-cookie', 'persisted-legacy', 'persisted-local', 'persisted-session', 'persisted-ignored', 'persisted-rubbish', 'similar-cookie', 'again'],
  workloads: [{ name: 'registry', quick: 700, thorough: 20000, async run(t) {
    const r = t.rng; const { page, sut, clock } = sdkPage(t); const made = new Map(); let n = 0;
    for (let i = r.int(4, 16); i > 0; i--) {
      const key = r.pick(KEYS); const name = r.pick(NAMES); const web = r.bool(0.2); const fl = r.bool(0.25) ? 'amp' : 'plain'; const id = canon([nameOf(name), key, web]); const fb = 'fallback-' + ++n; const old = made.get(id); const f = old ? old.fl : fl;
      const cfg = { ...page.json({ fallbackVariant: { value: fb }, pollOnStart: false, ...(web ? { internalInstanceNameSuffix: 'web' } : {}) }), loggerProvider: recLogger() }; if (name !== undefined) cfg.instanceName = name; if (r.bool(0.1)) cfg.instanceName = name ?? r.pick(['', null, undefined]);
      const ns = r.pick(['Experiment', 'direct']); const fn = f === 'amp' ? 'initializeWithAmplitudeAnalytics' : 'initialize'; const c = (ns === 'direct' && sut[fn] ? sut[fn] : sut.Experiment[fn])(key, cfg); t.log(fn, key, String(name), web);
      if (old) { t.count('same-client'); if (!t.check(c === old.c, 'another-client-for-same-instance', { key, name, web })) continue; } else { for (const [k, o] of made) if (o.c === c) t.violation('client-shared', { key, name, web, with: k }); t.count('other-client'); made.set(id, { c, fb, fl: f, user: null }); }
      for (const [k, o] of made) { const v = o.c.variant('no-such-flag').value; t.check(v === o.fb, 'configuration-changed', () => ({ of: k, got: v, want: o.fb, after: [key, name, web] })); t.equal(o.c.getUser() || null, o.user, 'user-shared', { of: k }); } if (old) t.count('kept-config');
      if (r.bool(0.5)) { const o = made.get(id); o.user = { user_id: 'u' + n }; c.setUser(page.json(o.user)); } t.evaluated(canon([id, f, made.size]));
    }
    await clock.advance(11000); page.close();
  } }, { name: 'connectors', quick: 300, thorough: 5000, async run(t) {
    const r = t.rng; const { page, sut } = sdkPage(t); const m = new Map(); const get = sut.AnalyticsConnector.getInstance;
    for (let i = 14; i > 0; i--) { const name = r.pick(['a', 'b', '$default_instance', 'a.b', 'constructor', 'toString', 'hasOwnProperty', 'length', 'A']); if (name in {}) t.count('prototype-name'); const c = get(name);
      if (!c || !c.identityStore || !c.eventBridge || !c.applicationContextProvider) { t.violation('not-a-connector', { name, got: String(c) }); continue; }
      if (m.has(name)) { t.count('same-connector'); t.check(m.get(name).c === c, 'another-connector-for-same-name', { name }); } else { t.count('other-connector'); for (const [k, o] of m) if (o.c === c || o.c.identityStore === c.identityStore || o.c.eventBridge === c.eventBridge) t.violation('connector-shared', { name, with: k }); m.set(name, { c, user: undefined }); }
      const o = m.get(name); for (const [k, x] of m) t.check(x.c.identityStore.getIdentity().userId === x.user, 'identity-shared', { of: k, after: name }); o.user = 'u' + i; o.c.identityStore.editIdentity().setUserId(o.user).commit(); t.evaluated(canon([name, m.size, r.int(0, 50)])); }
    page.close();
  } }, { name: 'analytics', quick: 1500, thorough: 50000, async run(t) {
    const r = t.rng; const w = sdkPage(t, { server: (k) => ({ status: 200, body: k === 'flags' ? '[]' : JSON.stringify(Object.fromEntries([['f1', 'on'], ['f2', 'off']].map(([k, v]) => [k, { key: v, value: v, metadata: { deliveryMethod: 'web' } }]))) }) }); const { page, sut, clock } = w; const P = (o) => page.json(o);
    const I = Object.create(null); const con = (n) => sut.AnalyticsConnector.getInstance(n); const names = r.subset(['$default_instance', 'a', 'constructor'], 0.6); if (!names.length) names.push('$default_instance'); const recs = Object.create(null);
    const commit = (n) => { const e = con(n).identityStore.editIdentity(); const id = clone(I[n] || { user_properties: {} }); const d = r.bool() ? 'd' + r.int(1, 3) : undefined; const u = r.bool(0.7) || (!d && !id.user_id && !id.device_id) ? r.pick(['u1', 'u2', 'ü']) : undefined; if (u) { e.setUserId(u); id.user_id = u; } if (d) { e.setDeviceId(d); id.device_id = d; } if (r.bool(0.4)) { const p = { plan: r.pick(['pro', 'free']), n: r.int(0, 2) }; e.updateUserProperties(P({ $set: p })); id.user_properties = { ...id.user_properties, ...p }; } return { e, id }; };
    // what analytics stored before
    const KEY = r.pick(['client-aaaaaaaaaaaaaaaa', '0123456789abcdef', '0123456789abcdef', '0123456789abcdef']); const stored = {}; const D = () => 'pd' + r.int(1, 9); const U = () => r.pick([undefined, 'pu1', 'jörg@x.de', '100%', 'u.v']);
    const put = (where) => { const good = r.bool(0.7); const s = { deviceId: D(), userId: U() }; let text; const rubbish = () => { t.count('persisted-rubbish'); return r.pick(['%', '%E0%A4%A', '{', 'null', '""', 'not base64 !', '5']); };
      if (where === 'cookie') { text = good ? newCookie(s) : r.pick(['%', '%E0%A4%A', '{', '!!', utf8b64('{'), utf8b64('%zz')]); if (!good) t.count('persisted-rubbish'); page.g.document.cookie = `AMP_${KEY.slice(0, 10)}=${good && r.bool() ? encodeURIComponent(text) : text}; path=/`; }
      else if (where === 'legacy') { s.userId = s.userId === 'u.v' ? 'uv' : s.userId; text = good ? `${s.deviceId}.${s.userId ? utf8b64(s.userId) : ''}.A.B.C` : '%E0%A4%A'; if (!good) t.count('persisted-rubbish'); page.g.document.cookie = `amp_${KEY.slice(0, 6)}=${text}; path=/`; }
      else { text = good ? JSON.stringify(s) : rubbish(); (where === 'local' ? page.localMap() : page.sessionMap()).set(`AMP_${KEY.slice(0, 10)}`, text); }
      if (good) stored[where] = s; };
    if (r.bool(0.5)) for (const p of r.subset(['cookie', 'legacy', 'local', 'session'], 0.45)) put(p);
    if (r.bool(0.3)) { t.count('similar-cookie'); page.g.document.cookie = `AMP_${KEY.slice(0, 10)}_x=${newCookie({ deviceId: 'other', userId: 'other' })}; path=/`; page.g.document.cookie = `amp_${KEY.slice(0, 6)}_x=other.${utf8b64('other')}.A.B.C; path=/`; page.g.document.cookie = `x_AMP_${KEY.slice(0, 10)}=${newCookie({ deviceId: 'other' })}; path=/`; }
    const clients = [];
    const create = (n) => {
      const key = clients.some((c) => c.key === KEY) ? r.pick(['client-cccccccccccccccc', 'client-dddddddddddddddd']) : KEY; if (clients.some((c) => c.key === key)) return; const auto = r.bool(); const cfg = { ...P({ pollOnStart: false, fetchOnStart: true, automaticFetchOnAmplitudeIdentityChange: auto, automaticExposureTracking: false }), loggerProvider: recLogger() }; if (n !== '$default_instance' || r.bool()) cfg.instanceName = n;
      const had = clone(I[n]); if (key === KEY && !KEY.startsWith('client-')) { const where = ['cookie', 'legacy', 'local', 'session'].find((x) => stored[x]); if (where) { t.count('persisted-' + where); const s = stored[where]; I[n] = { user_properties: {}, ...had, device_id: s.deviceId, ...(s.userId ? { user_id: s.userId } : {}) }; } } else if (key === KEY && Object.keys(stored).length) t.count('persisted-ignored');
      let client; try { client = sut.Experiment.initializeWithAmplitudeAnalytics(key, cfg); } catch (e) { t.violation('initialize-throws', { e: String(e), stored }); throw e; }
      const now = con(n).identityStore.getIdentity(); t.equal({ u: now.userId, d: now.deviceId }, { u: I[n]?.user_id, d: I[n]?.device_id }, 'persisted-identity', () => ({ stored, key, had }));
      const c = { key, n, auto, client, cfg, at: clock.now, ready: !!(I[n]?.user_id || I[n]?.device_id), fetches: 0, users: [], seen: 0 }; if (canon(had) !== canon(I[n])) changed(n, clients); clients.push(c); t.log('create', { key, n, auto, id: I[n] || null });
    };
    const count = (c) => page.requests.filter((q) => kind(q) === 'vardata' && q.headers.Authorization === `Api-Key ${c.key}`).length;
    const changed = (n, list) => { for (const c of list) { if (c.n !== n) { if (c.auto) t.count('other-connector-change'); continue; } c.ready = true; if (c.auto) { c.fetches++; c.users.push(clone(c.user)); t.count('refetched'); } else t.count('not-refetched'); } };
    const judge = (op) => {
      for (const c of clients) { if (!c.ready && clock.now >= c.at + 10000) { c.ready = true; if (c.fetches) t.count('timed-out'); }
        const want = c.ready ? c.fetches : 0; const got = count(c); if (!t.check(got === want, got > want ? (c.ready ? 'unasked-fetch' : 'fetched-before-identity') : 'fetch-missing', () => ({ op, key: c.key, n: c.n, auto: c.auto, got, want, waited: clock.now - c.at }))) c.fetches += got - want;
        const all = page.requests.filter((q) => kind(q) === 'vardata' && q.headers.Authorization === `Api-Key ${c.key}`); for (const q of all.slice(c.seen)) { const mine = c.users[c.seen++]; const u = JSON.parse(b64(q.headers['X-Amp-Exp-User'])); const e = { ...I[c.n], ...mine }; const up = { ...I[c.n]?.user_properties, ...mine?.user_properties }; t.equal({ u: u.user_id, d: u.device_id, p: u.user_properties || {} }, { u: e.user_id, d: e.device_id, p: up }, 'sent-identity', () => ({ op, n: c.n, user: mine })); t.count('sent-identity'); }

      }
      for (const n of Object.keys(recs)) { const got = recs[n].map((e) => [e.eventType, e.eventProperties?.flag_key, e.eventProperties?.variant]); t.equal(got, (E[n] || []), 'bridge-events', () => ({ op, n })); }
      t.evaluated(canon([op, clients.map((c) => [c.n, c.auto, c.ready, c.fetches]), I, Object.keys(recs)]));
    };
    const E = Object.create(null); const waiting = Object.create(null); // what each receiver must have got; events waiting for it
    const expose = (c) => { const v = c.client.all(); const k = r.pick(['f1', 'f2']); if (!v[k]) return; c.client.exposure(k); if (recs[c.n]) t.count('bridge-delivered'); (recs[c.n] ? (E[c.n] ||= []) : (waiting[c.n] ||= [])).push(['$impression', k, v[k].value]); return true; };
    for (let i = r.int(5, 14); i > 0; i--) {
      const op = i > 12 || !clients.length ? 'create' : r.weighted([[1, 'create'], [2.5, 'identity'], [2, 'fetch'], [1.5, 'pass'], [1, 'receiver'], [1, 'again'], [0.8, 'user'], [0.8, 'other'], [0.7, 'same']]); const n = r.pick(names); t.log(op, n);
      if (op === 'create') create(n);
      else if (op === 'identity') { const { e, id } = commit(n); const differs = canon(id) !== canon(I[n] || { user_properties: {} }); I[n] = id; if (differs) changed(n, clients); e.commit(); }
      else if (op === 'same') { if (I[n]) con(n).identityStore.editIdentity().commit(); }
      else if (op === 'other') { con('unrelated').identityStore.editIdentity().setUserId('x' + i).commit(); }
      else if (op === 'fetch') { const c = r.pick(clients); c.fetches++; c.users.push(clone(c.user)); if (!c.ready) t.count('waited'); c.promise = settled(c.client.fetch()); }
      else if (op === 'user') { const c = r.pick(clients); c.user = { user_id: 'explicit' }; if (r.bool()) c.user.user_properties = { plan: 'mine' }; c.client.setUser(P(c.user)); }
      else if (op === 'again') { const c = r.pick(clients); t.count('again'); t.check(sut.Experiment.initializeWithAmplitudeAnalytics(c.key, { ...c.cfg }) === c.client, 'another-client-for-same-instance', { key: c.key, n: c.n }); }
      else if (op === 'receiver') { const c = r.pick(clients); if (!recs[c.n]) { recs[c.n] = []; E[c.n] = waiting[c.n] || []; waiting[c.n] = []; if (E[c.n].length) t.count('bridge-late'); const got = recs[c.n]; con(c.n).eventBridge.setEventReceiver((e) => got.push(clone(e))); await clock.advance(1100); } }
      else await clock.advance(r.pick([50, 3000, 9000, 10001]));
      await clock.advance(0); judge(op);
      if (r.bool(0.4) && clients.length) { const c = clients[0]; if (c.ready && expose(c)) { await clock.advance(1100); judge('expose'); } }
    }
    const c0 = clients[0]; if (c0) await clock.advance(11000), judge('end'); t.sample({ clients: clients.map((c) => [c.key, c.n, c.auto, c.fetches]), I }); page.close();
  } }],
};
