import { BROWSER_ENTRY, API, sdkPage, settled, recLogger, kind } from '../lib/client.mjs';
import { Ref } from '../models/client.mjs';
import { Device } from '../lib/env.mjs';
import { canon, clone } from '../lib/util.mjs';
const sameIdentity = (a, b) => (a.user_id && b.user_id ? a.user_id === b.user_id : !a.user_id && !b.user_id ? a.device_id === b.device_id : false);
const eventOf = (e) => ({ eventType: e.metadata?.exposureEvent || (e.metadata?.deliveryMethod === 'web' ? '$impression' : '$exposure'), eventProperties: e });
const USERS = [undefined, { user_id: 'u1' }, { user_id: 'u2' }, { user_id: 'u1', device_id: 'd1' }, { user_id: 'u1', device_id: 'd2' }, { device_id: 'd1' }, { device_id: 'd2' }];
function variantsOf(r, n) { const o = {}; for (let i = 0; i < n; i++) { const v = { key: r.pick(['on', 'off', 'treatment']) }; v.value = v.key; const m = {}; if (r.bool(0.3)) m.deliveryMethod = 'web'; if (r.bool(0.2)) m.experimentKey = 'e' + i; if (r.bool(0.15)) m.exposureEvent = 'custom_' + i; if (r.bool(0.1)) m.default = true; if (Object.keys(m).length) v.metadata = m; o['f' + i] = v; } return o; }
/** A page with a client, a scriptable integration and its own session, sharing the queue of the device. */
export function actor(t, r, world, o = {}) {
  const s = sdkPage(t, { device: world.device, server: () => ({ status: 200, body: JSON.stringify(a.responses) }), page: { tab: o.tab } });
  const a = { ...s, responses: {}, mode: 'accept', calls: 0, installed: false, ready: false, ref: null, name: o.name }; world.device = s.device;
  a.client = new s.sut.ExperimentClient(API, { ...s.page.json({ pollOnStart: false, retryFetchOnFailure: false, automaticExposureTracking: true, ...(world.instance ? { instanceName: world.instance } : {}) }), loggerProvider: recLogger() });
  a.ref = new Ref({ apiKey: API, lib: 'x' }); a.session = o.session || { cache: new Map(), identity: null, old: new Map() }; a.fresh = true; a.pageCache = new Map(); a.pageIdentity = {};
  return a;
}
export default {
  property: 'C18', bundles: { browser: BROWSER_ENTRY },
  rule: 'One or two tabs share a device; each runs a client whose exposures go to a scriptable integration that accepts, refuses, refuses part-way through a flush, throws, reenters variant()/exposure() from track(), is installed late, replaced, or has a slow or failing setup. Pages reload and close at random, time passes, and up to 700 events pile up. An online checker follows every track() call: it must be handed the head of the reference queue (order, no loss, no repeat), the event must have the specified type and content, and the queue must be empty within the retry period once the integration accepts. Non-trivial = distinct history step that delivered, refused or deduplicated an event.',
  requires: ['delivered', 'refused', 'threw', 'reentrant', 'partial-flush', 'late-plugin', 'replaced', 'slow-setup', 'failed-setup', 'reload-with-queue', 'trimmed', 'deduped', 'dedupe-reset-identity', 'web-always', 'two-tabs', 'custom-event', 'dedupe-across-reload', 'polled', 'storage-threw', 'junk-in-storage', 'delivered-despite-fault', 'several-instances', 'analytics-reload-with-queue', 'analytics-delivered', 'analytics-late-receiver'],
  workloads: [{ name: 'histories', quick: 1500, thorough: 50000, async run(t) {
    const r = t.rng; const world = { device: undefined, instance: r.pick([undefined, undefined, 'alt']) }; const L = []; let seq = 0; let dirty = false; // L: what is waiting for delivery, oldest first
    const trimL = () => { if (L.length > 512) { t.count('trimmed', L.length - 512); L.splice(0, L.length - 512); } };
    const plug = (a) => { // install an integration
      const p = { type: 'integration', dead: false, getUser: () => ({}) }; const setup = r.pick(['none', 'ok', 'slow', 'fail', 'slowfail']); if (a.installed) t.count('replaced'); if (L.length) t.count('late-plugin'); a.plugin = p; a.installed = true; a.ready = false; let depth = 0;
      p.track = (e) => {
        a.calls++; a.reached = true; const name = a.name;
        if (p !== a.plugin) { t.violation('replaced-plugin-called', { name }); return false; } if (!a.ready && setup !== 'none') t.violation('called-before-setup', { name, setup });
        if (!L.length || canon(e) !== canon(L[0].event)) { t.violation(L.some((x) => canon(x.event) === canon(e)) ? 'out-of-order' : 'unexpected-event', { got: e, head: L[0] && L[0].event, waiting: L.length, mode: a.mode }); return true; }
        let m = a.mode; if (m === 'flaky') m = r.pick(['accept', 'refuse', 'throw', 'accept', 'accept']); if (m === 'partial') m = a.budget-- > 0 ? 'accept' : 'refuse';
        if (m === 'reenter') { m = r.pick(['accept', 'accept', 'refuse', 'throw']); if (depth === 0 && seq < 60) { depth++; t.count('reentrant'); expose(a, r.pick(Object.keys(a.responses)), true); if (r.bool(0.3)) expose(a, r.pick(Object.keys(a.responses)), true); depth--; } }
        if (m === 'refuse') { t.count('refused'); if (a.mode === 'partial') t.count('partial-flush'); return false; } if (m === 'throw') { t.count('threw'); throw new a.page.g.Error('integration failed'); }
        L.shift(); t.count('delivered'); return true;
      };
      if (setup !== 'none') p.setup = () => { const P = a.page.g.Promise; const fin = (ok, no) => { if (p === a.plugin) a.ready = true; setup.includes('fail') ? no(new a.page.g.Error('setup')) : ok(); }; if (setup.includes('slow')) { t.count('slow-setup'); return new P((ok, no) => a.page.g.setTimeout(() => fin(ok, no), 700)); } if (setup === 'fail') t.count('failed-setup'); return new P((ok, no) => fin(ok, no)); }; else a.ready = true;
      if (r.bool(0.3)) p.teardown = () => a.page.g.Promise.resolve(); t.log('plug', { a: a.name, setup, mode: a.mode }); a.client.addPlugin(p);
    };
    const expose = (a, key, nested) => {
      const e = a.ref.exposure(key); if (!e) { a.client.exposure(key); return; } const ev = eventOf(e); seq++;
      const u = a.ref.mergedUser(); const id = { user_id: u.user_id, device_id: u.device_id }; const v = e.variant ?? null; const web = e.metadata?.deliveryMethod === 'web'; let send = true; let carried = false; let stale = false;
      if (web) t.count('web-always');
      else {
        // the session's cache, as specified, and what this page alone knows
        const S = a.session; if (!S.identity || !sameIdentity(S.identity, id)) { if (S.cache.size) t.count('dedupe-reset-identity'); S.old = a.fresh && sameIdentity({}, id) ? new Map(S.cache) : new Map(); S.cache.clear(); } a.fresh = false; S.identity = id; if (!sameIdentity(a.pageIdentity, id)) { a.pageCache.clear(); a.pageIdentity = id; }
        const dup = S.cache.has(key) && S.cache.get(key) === v; const pageDup = a.pageCache.has(key) && a.pageCache.get(key) === v; send = !dup; if (dup) { t.count('deduped'); if (!pageDup) { t.count('dedupe-across-reload'); carried = true; } } if (carried && nested) return; stale = send && S.old.has(key) && S.old.get(key) === v; if (stale && nested) return; S.old.delete(key); S.cache.set(key, v); a.pageCache.set(key, v);
      }
      if (ev.eventType.startsWith('custom')) t.count('custom-event');
      const item = { event: clone(ev), n: seq };
      if (carried) { // sent by an earlier page of the session: it must not be queued again
        const q = queue(a); const had = q.length; const mode = a.mode; a.mode = 'refuse'; L.push(item); if (r.bool()) a.client.exposure(key); else a.client.variant(key); a.mode = mode;
        if (canon(queue(a)) !== canon(q)) t.violation(id.user_id || id.device_id ? 'resent-after-reload' : 'sent-twice-in-session', { ev, id }); else L.pop();
      } else if (stale) { // an earlier page of the session sent it for somebody else: it must be queued
        const q = queue(a); const mode = a.mode; a.mode = 'refuse'; L.push(item); if (r.bool()) a.client.exposure(key); else a.client.variant(key); a.mode = mode;
        if (canon(queue(a)) === canon(q)) { t.violation('suppressed-after-reload', { ev, id }); L.pop(); }
      } else { if (send) L.push(item); if (nested || r.bool()) a.client.exposure(key); else a.client.variant(key); }
      if (!nested) trimL(); dirty = true;
    };
    const queue = (a) => { const v = a.page.localMap().get('EXP_unsent_' + (world.instance || '$default_instance')); return v ? JSON.parse(v) : []; };
    const judge = (at, a) => { // what is waiting is what is stored
      t.equal(queue(a), L.map((x) => x.event), 'stored-queue', () => ({ at, waiting: L.length })); t.evaluated(dirty ? canon([at, L.length, a.mode, seq, world.instance, a.ref.user]) : null); dirty = false;
    };
    const mkActor = async (o) => { const a = actor(t, r, world, o); a.responses = variantsOf(r, o.n || 5); settled(a.client.fetch(a.page.json({}))); await world.device.clock.advance(0); a.ref.user = {}; a.ref.fetched(clone(a.responses)); return a; };
    const many = r.bool(0.02); const n = many ? 700 : r.int(1, 8); const tabs = [await mkActor({ name: 'A', n })]; if (!many && r.bool(0.3)) { t.count('two-tabs'); tabs.push(await mkActor({ name: 'B', n })); }
    const live = async () => { // every tab accepts: nothing may stay behind
      for (const a of tabs) { if (!a.installed) plug(a); a.mode = 'accept'; } const had = L.length; await world.device.clock.advance(2500); for (const a of tabs) if (tabs.length > 1) { a.client.exposure('none-such'); }
      if (tabs.length > 1 && L.length) { const a = tabs[0]; a.ref.variants = { ...a.ref.variants }; const wk = Object.keys(a.responses).find((k) => a.responses[k].metadata?.deliveryMethod === 'web'); if (wk) expose(a, wk); else return; }
      if (had && !L.length) t.count('polled'); t.check(L.length === 0, 'not-delivered-when-ready', () => ({ left: L.length, had, head: L[0] }));
    };
    if (many) { const a = tabs[0]; a.mode = 'refuse'; if (r.bool()) plug(a); for (const k of Object.keys(a.responses)) expose(a, k); judge('many', a); }
    for (let i = r.int(4, 14); i > 0; i--) {
      const a = r.pick(tabs); const op = r.weighted([[6, 'expose'], [1.5, 'user'], [1, 'fetch'], [2, 'mode'], [1.2, 'plug'], [1.5, 'reload'], [2.5, 'pass'], [1, 'live']]); t.log(op, { a: a.name, mode: a.mode, waiting: L.length });
      if (op === 'expose') for (let k = r.int(1, 4); k > 0; k--) { expose(a, r.pick(Object.keys(a.responses))); judge(op, a); }
      else if (op === 'user') { const u = r.pick(USERS); a.client.setUser(u && a.page.json(u)); a.ref.user = u || null; }
      else if (op === 'fetch') { a.responses = variantsOf(r, n); const u = a.ref.user || {}; a.mode === 'reenter' && (a.mode = 'accept'); const f = settled(a.client.fetch(a.page.json(u))); await world.device.clock.advance(0); if (!f.done) await world.device.clock.advance(1000); t.check(f.done, 'fetch-hangs'); a.ref.user = u; a.ref.fetched(clone(a.responses)); }
      else if (op === 'mode') { a.mode = r.pick(['accept', 'refuse', 'throw', 'flaky', 'partial', 'reenter']); a.budget = r.int(0, 3); }
      else if (op === 'plug') { plug(a); await world.device.clock.advance(r.pick([0, 0, 1000])); judge(op, a); }
      else if (op === 'reload') { if (L.length) t.count('reload-with-queue'); a.page.close(); const b = await mkActor({ name: a.name, tab: a.page.tab, session: a.session, n }); if (r.bool()) { const u = a.ref.user; b.client.setUser(u && b.page.json(u)); b.ref.user = u || null; } b.mode = r.pick(['accept', 'refuse', 'partial']); b.budget = 1; tabs[tabs.indexOf(a)] = b; judge(op, b); }
      else if (op === 'pass') { await world.device.clock.advance(r.pick([10, 999, 1001, 5000])); judge(op, a); }
      else { await live(); judge(op, a); }
    }
    await live(); t.sample({ tabs: tabs.length, seq, many }); for (const a of tabs) a.page.close();
  } }, { name: 'storage-faults', quick: 1200, thorough: 40000, async run(t) { // one page on a device whose storage holds rubbish, refuses writes or refuses everything, for a while or for ever
    const r = t.rng; const world = { device: undefined }; const s0 = sdkPage(t, { server: () => ({ status: 200, body: '{}' }) }); world.device = s0.device; const QK = 'EXP_unsent_$default_instance'; const DK = 'EXP_sent_v3_$default_instance';
    const JUNK = ['', '{', 'null', '5', '"x"', '{}', '[null]', '[5,"a"]', '[{"a":1}]', 'undefined', '[[]]', 'true'];
    const junk = r.bool(0.5); if (junk) { t.count('junk-in-storage'); if (r.bool(0.7)) s0.page.localMap().set(QK, r.pick(JUNK)); if (r.bool(0.7)) s0.page.sessionMap().set(DK, r.pick(JUNK)); }
    const tab = s0.page.tab; s0.page.close(); let fault = 'none'; world.device.storageFault = (e) => { const hit = fault === 'all' || e.op === fault || (fault === 'flaky' && r.bool(0.4)) || (fault === 'access' && e.op === 'access'); if (hit) t.count('storage-threw'); return hit; };
    if (r.bool(0.2)) fault = r.pick(['all', 'set', 'access', 'flaky']); const a = actor(t, r, world, { name: 'A', tab }); a.responses = variantsOf(r, r.int(2, 6)); const startFault = fault; fault = 'none';
    settled(a.client.fetch(a.page.json({}))); await world.device.clock.advance(0); a.ref.user = {}; a.ref.fetched(clone(a.responses)); const keys = Object.keys(a.responses); const L = []; let sent = 0; const cache = new Map(); let id = {}; let accept = r.bool(); const plug = { type: 'integration', getUser: () => ({}), track(e) { if (!L.length || canon(e) !== canon(L[0])) { t.violation('fault-' + (L.some((x) => canon(x) === canon(e)) ? 'out-of-order' : 'unexpected-event'), { got: e, head: L[0], fault, startFault }); return true; } if (!accept) return false; L.shift(); sent++; return true; } };
    const guard = (what, fn) => { try { fn(); } catch (e) { t.violation('storage-fault-escapes', { what, fault, startFault, e: String(e) }); } };
    let on = r.bool(); if (on) guard('addPlugin', () => a.client.addPlugin(plug));
    for (let i = r.int(4, 16); i > 0; i--) { const op = r.weighted([[6, 'expose'], [2, 'fault'], [1, 'mode'], [1, 'plug'], [2, 'pass'], [1, 'user']]); t.log(op, { fault, accept });
      if (op === 'expose') { const key = r.pick(keys); const e = a.ref.exposure(key); const ev = e && eventOf(e); if (e) { const u = a.ref.mergedUser(); const nid = { user_id: u.user_id, device_id: u.device_id }; if (e.metadata?.deliveryMethod !== 'web') { if (!sameIdentity(id, nid)) cache.clear(); id = nid; if (!cache.has(key) || cache.get(key) !== (e.variant ?? null)) L.push(clone(ev)); cache.set(key, e.variant ?? null); } else L.push(clone(ev)); } guard('exposure', () => (r.bool() ? a.client.exposure(key) : a.client.variant(key))); t.evaluated(canon([ev, fault, startFault, accept, on, L.length, junk])); }
      else if (op === 'fault') fault = r.pick(['none', 'none', 'set', 'get', 'all', 'access', 'flaky', 'remove']); else if (op === 'mode') accept = r.bool(0.6);
      else if (op === 'plug') { if (!on) { on = true; guard('addPlugin', () => a.client.addPlugin(plug)); } } else if (op === 'pass') { try { await world.device.clock.advance(r.pick([10, 1001, 3000])); } catch (e) { t.violation('storage-fault-escapes', { what: 'timer', e: String(e) }); } }
      else { const u = r.pick(USERS); guard('setUser', () => a.client.setUser(u && a.page.json(u))); a.ref.user = u || null; } }
    accept = true; if (!on) guard('addPlugin', () => a.client.addPlugin(plug)); if (r.bool()) fault = 'none'; await world.device.clock.advance(2500); t.check(!L.length, 'fault-not-delivered', () => ({ left: L.length, head: L[0], fault, startFault })); if (sent) t.count('delivered-despite-fault', sent); a.page.close();
  } }, { name: 'analytics', quick: 500, thorough: 15000, async run(t) { // the Amplitude plugin: pages come and go, analytics starts on any of them; several instances side by side
    const r = t.rng; const device = new Device({ seed: r.u32() }); const { clock } = device; const tab = device.tab(); const names = r.subset(['$default_instance', 'A', 'a', 'AB', 'constructor'], 0.5); if (!names.length) names.push('$default_instance'); const flags = Array.from({ length: 40 }, (_, i) => 'f' + i); const variants = Object.fromEntries(flags.map((f, i) => [f, { key: 'on', value: 'on', ...(i % 3 ? { metadata: { deliveryMethod: 'web' } } : {}) }]));
    const waiting = Object.create(null); const left = Object.create(null); for (const n of names) { waiting[n] = []; left[n] = [...flags]; } let page, sut, on, clients; if (names.length > 1) t.count('several-instances');
    const open = () => { if (page) { page.close(); for (const n of names) if (waiting[n].length) t.count('analytics-reload-with-queue'); } page = device.page({ url: 'https://www.example.com/shop', tab, fetch: () => ({ status: 200, body: '{}' }) }); sut = page.load(t.sut.browser); on = Object.create(null); clients = Object.create(null);
      for (const n of names) { clients[n] = sut.Experiment.initializeWithAmplitudeAnalytics(API, { ...page.json({ instanceName: n, source: 'initialVariants', initialVariants: variants, pollOnStart: false, fetchOnStart: false }), loggerProvider: recLogger() }); if (r.bool(0.6)) sut.AnalyticsConnector.getInstance(n).identityStore.editIdentity().setUserId('u1').commit(); } };
    open(); await clock.advance(0);
    for (let i = r.int(5, 14); i > 0; i--) { const n = r.pick(names); const op = r.weighted([[5, 'expose'], [2, 'reload'], [1.5, 'receiver'], [2, 'pass'], [1, 'identity']]); t.log(op, n);
      if (op === 'expose') for (let k = r.int(1, 4); k > 0; k--) { const f = left[n].shift(); if (!f) break; waiting[n].push([f, variants[f].metadata ? '$impression' : '$exposure']); r.bool() ? clients[n].exposure(f) : clients[n].variant(f); }
      else if (op === 'reload') open(); else if (op === 'pass') await clock.advance(r.pick([0, 500, 1001, 10001]));
      else if (op === 'identity') sut.AnalyticsConnector.getInstance(n).identityStore.editIdentity().setDeviceId('d' + r.int(1, 2)).commit();
      else if (!on[n]) { on[n] = true; sut.AnalyticsConnector.getInstance(n).eventBridge.setEventReceiver((e) => { const got = [e.eventProperties?.flag_key, e.eventType]; const head = waiting[n].shift(); if (canon(got) !== canon(head || null)) t.violation('analytics-' + (head ? 'order' : 'unexpected'), { n, got, head, names }); else t.count('analytics-delivered'); }); }
      await clock.advance(0); t.evaluated(canon([op, n, waiting[n].length, left[n].length, Object.keys(on)]));
    }
    if (r.bool()) open(); await clock.advance(10001); for (const n of names) { if (!on[n]) { const had = waiting[n].length; sut.AnalyticsConnector.getInstance(n).eventBridge.setEventReceiver((e) => { const got = [e.eventProperties?.flag_key, e.eventType]; const head = waiting[n].shift(); if (canon(got) !== canon(head || null)) t.violation('analytics-' + (head ? 'order' : 'unexpected'), { n, got, head, names }); }); if (had) t.count('analytics-late-receiver'); } } await clock.advance(2100);
    for (const n of names) t.check(!waiting[n].length, 'analytics-lost', () => ({ n, left: waiting[n] })); page.close();
  } }],
};
