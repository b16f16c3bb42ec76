import { Device } from '../lib/env.mjs';
import { canon, clone, turn } from '../lib/util.mjs';
const ENTRY = `export * from '@src/tag/behavioral-targeting/event-storage'; export { SessionManager } from '@src/tag/behavioral-targeting/session-manager'; export * from '@src/tag/consent/consent-gate';`;
const TYPES = ['View', 'Click', 'Purchase', '[Amplitude] Page Viewed', 'constructor', '', 'ünï'];
const API = 'client-0123456789'; const KEY = `EXP_${API.slice(0, 10)}_rtbt_events`;
const props = (r) => r.pick([{}, { a: 1 }, { a: 'x', b: [1, 2, null] }, { n: { m: { k: true } } }, { ключ: '\u2028"' }, { v: r.int(0, 1000) }]);
const rec = (r, i, o = {}) => ({ uuid: 'u-' + r.int(1, 1e9) + '-' + i, id: i, event_type: r.pick(TYPES), timestamp: 1_699_000_000_000 + i * 7, session_id: 's', properties: props(r), ...o });
const CORRUPT = ['', '{', 'null', '5', '"s"', '[]', '{}', '{"events":null,"nextId":1}', '{"events":{},"nextId":1}', '{"events":[]}', '{"events":[],"nextId":"1"}', '{"events":[null],"nextId":2}', '{"events":[5,"x",null,[]],"nextId":2}', '{"events":[{}],"nextId":2}', '{"events":[{"uuid":"a"}],"nextId":2}', '{"events":[null,{"uuid":"ok","id":1,"event_type":"View","timestamp":1699000000000,"session_id":"s","properties":{}}],"nextId":2}', '{"events":[[{"uuid":"x"}]],"nextId":3}', '{"events":"abc","nextId":3}'];
const plain = (l) => l.map((e) => [e.event_type, e.timestamp, canon(e.properties)]);
const stored = (d, p) => { const s = d.localFor(p.origin).get(KEY); if (s === undefined) return null; try { return JSON.parse(s); } catch { return 'unreadable'; } };
const noUuid = (r, p, t) => { if (!r.bool(0.25)) return; t.count('no-random-uuid'); if (r.bool()) p.g.crypto = undefined; else p.g.crypto.randomUUID = undefined; };
const good = (e) => e && typeof e === 'object' && !Array.isArray(e);
export default {
  property: 'C36', bundles: { tag: ENTRY },
  rule: 'log: random histories of tracked events (some types not persisted, some with given times, bursts past the cap), elapsed time, page hides, unloads, crashes, reloads, clears and storage failures; a model list judges what the store shows at every step and an online rule judges the device: never anything but a state the list was in, at most the write delay old once tracking pauses, current after hiding or unloading. corrupt: damaged stored data never throws and loses no readable record. merge: two or more sources merged in random order, with overlap and repetition, against set union by id. sync: the relay exchange against a model relay whose answers fail or are lost, with events tracked meanwhile. attached: every event tracked while a relay is attached is handed to it once, and hiding or unloading flushes it. windows: what a time window holds, against the list. consent: events of a pending visit. Non-trivial = distinct judged step.',
  requires: ['tracked', 'filtered', 'cap', 'debounced', 'within-delay', 'hidden', 'unload', 'crash', 'reload', 'cleared', 'storage-fault', 'corrupt', 'kept-readable', 'backfilled', 'merge', 'merge-overlap', 'merge-cap', 'merge-order-free', 'merge-idempotent', 'synced', 'sync-failed', 'sync-meanwhile', 'sync-again', 'migrated', 'consent-pending', 'consent-granted', 'consent-denied', 'consent-merged', 'relayed', 'not-attached', 'relay-flush', 'relay-unavailable', 'window-session', 'window-rolling', 'no-random-uuid', 'backfill-persisted', 'cleanup'],
  workloads: [
    { name: 'log', quick: 1500, thorough: 50000, async run(t) {
      const r = t.rng; const d = new Device({ seed: t.index }); const allow = r.bool(0.5) ? new Set(r.subset(TYPES, 0.6)) : null; const ops = []; let p, sut, m, M, past, floor, due;
      // M: events the store must show; past: states it was in since the last time the device had to be current; due: time by which the device must hold M
      let broken = false;
      const open = (want) => { p = d.page({ url: 'https://www.example.com/x', seed: t.index * 31 + ops.length }); noUuid(r, p, t); sut = p.load(t.sut.tag); try { m = new sut.EventStorageManager(API, new sut.SessionManager(API), allow ? new Set(allow) : undefined); } catch (e) { t.violation('threw', { op: 'open', e: String(e), ops }); return false; } M = want; past = [canon(plain(M))]; due = Infinity; return look('open'); };
      const look = (why) => { const got = m.getAllEvents(); const ok = t.equal(plain(clone(got)), plain(M), 'shown-events', { why, ops: ops.slice(-8), got: got.length, want: M.length }); const ids = new Set(got.map((e) => e.uuid)); t.check(ids.size === got.length && got.every((e) => typeof e.uuid === 'string' && e.uuid), 'event-ids', { why, ops: ops.slice(-8) }); for (const ty of new Set(M.map((e) => e.event_type))) t.check(m.getEventCount(ty) === M.filter((e) => e.event_type === ty).length, 'count-by-type', { ty }); t.evaluated(canon([why, ops.slice(-5), M.length])); return ok; };
      const device = (why) => { if (broken) return; const s = stored(d, p); const c = canon(plain(Array.isArray(s?.events) ? s.events : [])); const now = d.clock.now; t.check(past.includes(c), 'device-holds-other-state', { why, ops: ops.slice(-8), n: s?.events?.length }); if (now >= due) { t.count('within-delay'); t.check(c === past[past.length - 1], 'not-persisted-in-time', { why, ops: ops.slice(-8), late: now - due, n: s?.events?.length, want: M.length }); } if (c !== past[past.length - 1]) t.count('debounced'); };
      const current = (why) => { due = d.clock.now; device(why); if (!broken) past = past.slice(-1); };
      if (!open([])) return; const n = r.int(5, 25); let seq = 0;
      for (let i = 0; i < n; i++) {
        const k = r.weighted([[10, 'add'], [0.5, 'burst'], [6, 'time'], [1, 'hide'], [1, 'unload'], [0.7, 'reload'], [0.5, 'crash'], [0.2, 'clear'], [0.4, 'flush'], [0.3, 'fault']]); ops.push([k]);
        try {
          if (k === 'add' || k === 'burst') { const c = k === 'add' ? 1 : r.weighted([[4, () => 20], [1, () => 490], [1, () => 520]])(); for (let j = 0; j < c; j++) { const ty = r.pick(TYPES); const pr = props(r); pr.seq = seq++; const at = r.bool(0.15) ? d.clock.now - r.int(0, 1e6) : undefined; m.addEvent(ty, p.json(pr), at); if (allow && !allow.has(ty)) { t.count('filtered'); continue; } t.count('tracked'); M = [...M, { event_type: ty, timestamp: at ?? d.clock.now, properties: pr }]; if (M.length > 500) { t.count('cap'); M = M.slice(-500); } due = d.clock.now + 500; } past.push(canon(plain(M))); look(k); }
          else if (k === 'time') { const ms = r.pick([1, 100, 499, 500, 501, 1000, 5000]); ops[ops.length - 1].push(ms); await d.clock.advance(ms); device('time'); look('time'); }
          else if (k === 'hide') { t.count('hidden'); p.hidden = true; (p.doc || p.dom.window.document).dispatch('visibilitychange', { type: 'visibilitychange' }); p.hidden = false; current('hide'); }
          else if (k === 'unload') { t.count('unload'); p.win.dispatch('beforeunload', { type: 'beforeunload' }); current('unload'); }
          else if (k === 'flush') { m.flush(); current('flush'); }
          else if (k === 'clear') { t.count('cleared'); m.clearEvents(); M = []; past.push(canon([])); look('clear'); current('clear'); }
          else if (k === 'fault') { t.count('storage-fault'); const kinds = r.pick([['setItem'], ['setItem', 'access'], ['access']]); broken = true; d.storageFault = (e) => kinds.includes(e.op) || (kinds.includes('setItem') && e.op === 'set'); for (let j = r.int(1, 4); j-- > 0;) { const ty = allow ? [...allow][0] : 'View'; if (ty === undefined) break; m.addEvent(ty, p.json({ j }), undefined); M = [...M, { event_type: ty, timestamp: d.clock.now, properties: { j } }].slice(-500); await d.clock.advance(r.pick([100, 600])); } m.flush(); look('fault'); d.storageFault = null; const ty = allow ? [...allow][0] : 'View'; if (ty !== undefined) { m.addEvent(ty, p.json({}), undefined); M = [...M, { event_type: ty, timestamp: d.clock.now, properties: {} }].slice(-500); } past = [canon(plain(M))]; broken = ty === undefined; if (ty !== undefined) { m.flush(); current('after-fault'); } }
          else { // reload or crash
            t.count(k); device('before-' + k); if (k === 'reload') { p.win.dispatch('beforeunload', { type: 'beforeunload' }); current('unload'); } p.close(); const s = stored(d, p); const was = s && Array.isArray(s.events) ? s.events : []; if (!open(was)) return;
          }
        } catch (e) { t.violation('threw', { op: k, e: String(e.stack || e).slice(0, 300), ops: ops.slice(-8) }); return; }
      }
      await d.clock.advance(500); device('end'); if (r.bool(0.3)) { if (r.bool() && (!allow || allow.has('View'))) { m.addEvent('View', p.json({ last: 1 })); M = [...M, { event_type: 'View', timestamp: d.clock.now, properties: { last: 1 } }].slice(-500); past.push(canon(plain(M))); } t.count('cleanup'); m.cleanup(); current('cleanup'); if (!broken) { await d.clock.advance(1000); device('after-cleanup'); const n = p.log.storage?.length; if (!allow || allow.has('View')) { m.addEvent('View', p.json({})); p.win.dispatch('beforeunload', { type: 'beforeunload' }); device('unload-after-cleanup'); } } }
      for (const e of d.clock.errors || []) t.violation('timer-threw', { e: String(e) });
    } },
    { name: 'corrupt', quick: 1200, thorough: 40000, async run(t) {
      const r = t.rng; const d = new Device({ seed: t.index }); const p = d.page({ url: 'https://www.example.com/x', seed: t.index }); t.count('corrupt');
      let raw = r.pick(CORRUPT); let keep = []; if (r.bool(0.5)) { keep = Array.from({ length: r.int(1, 5) }, (_, i) => rec(r, i + 1)); const l = [...keep]; for (let j = r.int(0, 3); j-- > 0;) l.splice(r.int(0, l.length), 0, r.pick([null, 5, 'x', true])); if (r.bool(0.4)) { delete keep[0].uuid; t.count('backfilled'); } raw = JSON.stringify({ events: l, nextId: 9 }); if (r.bool(0.2)) { raw = raw.slice(0, r.int(1, raw.length - 1)); keep = []; } }
      d.localFor(p.origin).set(KEY, raw); noUuid(r, p, t); const sut = p.load(t.sut.tag); let m; const ops = [raw.slice(0, 200)];
      try { m = new sut.EventStorageManager(API, new sut.SessionManager(API)); const got = clone(m.getAllEvents()); if (keep.length && !keep[0].uuid) { t.count('backfill-persisted'); t.equal(stored(d, p)?.events, got, 'given-ids-not-kept', { raw: raw.slice(0, 200) }); } if (keep.length) t.check(got.filter((e) => keep.some((k) => k.uuid === e.uuid)).length === keep.filter((k) => k.uuid).length, 'stored-ids-changed', { raw: raw.slice(0, 300) }); for (const k of keep) { t.count('kept-readable'); t.check(got.some((e) => e && e.event_type === k.event_type && e.timestamp === k.timestamp && canon(e.properties) === canon(k.properties)), 'readable-record-lost', { raw: raw.slice(0, 300), got: got.length }); }
        m.addEvent('View', p.json({ a: 1 })); t.check(m.getEventsByType('View').some((e) => e.properties && e.properties.a === 1), 'event-not-shown', { raw }); m.getEventsInTimeWindow('View', 'rolling', 1, 'day'); m.getEventsInTimeWindow('View', 'current_session', 0); m.mergeFromRelay(p.json({ events: [rec(r, 99)], nextId: 100 })); m.flush(); const s = stored(d, p); t.check(s && Array.isArray(s.events) && s.events.some((e) => e && e.id === 99), 'not-usable-after-corruption', { raw: raw.slice(0, 200) }); const u = s.events.filter(good).map((e) => e.uuid); t.check(u.every((x) => typeof x === 'string' && x) && new Set(u).size === u.length, 'event-ids', { raw: raw.slice(0, 200) }); p.close(); const q = d.page({ url: 'https://www.example.com/y', seed: t.index + 1 }); const s2 = q.load(t.sut.tag); const m2 = new s2.EventStorageManager(API, new s2.SessionManager(API)); t.equal(clone(m2.getAllEvents()), s.events, 'reload-differs', { raw: raw.slice(0, 200) });
      } catch (e) { t.violation('corrupt-threw', { raw: raw.slice(0, 300), e: String(e.stack || e).slice(0, 300) }); }
      t.evaluated(canon(ops));
    } },
    { name: 'merge', quick: 1500, thorough: 50000, async run(t) {
      const r = t.rng; const d = new Device({ seed: t.index }); const big = r.bool(0.1); const pool = Array.from({ length: big ? r.int(520, 900) : r.int(1, 30) }, (_, i) => rec(r, i + 1)); const local = r.subset(pool, r.f()).sort((a, b) => a.timestamp - b.timestamp).slice(-500); const sources = Array.from({ length: r.int(1, 3) }, () => r.shuffle(r.subset(pool, r.f()))); if (r.bool(0.3) && sources[0].length) sources[0].push(clone(sources[0][0])); t.count('merge');
      const build = (order, tag) => { const p = d.page({ url: `https://${tag}.example.com/x`, seed: t.index }); d.localFor(p.origin).set(KEY, JSON.stringify({ events: local, nextId: 50 })); const sut = p.load(t.sut.tag); const m = new sut.EventStorageManager(API, new sut.SessionManager(API)); for (const s of order) m.mergeFromRelay(p.json({ events: s, nextId: t.index % 3 ? 70 : 1 })); return { p, m, l: clone(m.getAllEvents()) }; };
      try {
        const a = build(sources, 'a'); const map = new Map(); for (const e of [...local, ...sources.flat()]) map.set(e.uuid, e); const all = [...map.values()].sort((x, y) => x.timestamp - y.timestamp); if (map.size < local.length + sources.flat().length) t.count('merge-overlap'); if (all.length > 500) t.count('merge-cap');
        if (sources.length === 1 || all.length <= 500) t.equal(a.l, all.slice(-500), 'merged-events', { local: local.map((e) => e.id), sources: sources.map((s) => s.map((e) => e.id)) });
        const b = build(r.shuffle([...sources]), 'b'); t.count('merge-order-free'); t.equal(b.l, a.l, 'merge-order-matters', {}); const c = build([...sources, ...sources], 'c'); t.count('merge-idempotent'); t.equal(c.l, a.l, 'merge-not-idempotent', {});
        a.m.addEvent('View', a.p.json({})); const l2 = a.m.getAllEvents(); const fresh = l2[l2.length - 1]; t.check(!map.has(fresh.uuid), 'event-ids', {}); t.check([...map.values()].every((e) => e.id < fresh.id), 'id-counter-reused', { id: fresh.id }); await d.clock.advance(500); t.equal(stored(d, a.p).events, clone(l2), 'merged-not-persisted', {});
      } catch (e) { t.violation('merge-threw', { e: String(e.stack || e).slice(0, 300) }); }
      t.evaluated(canon([pool.length, local.length, sources.map((s) => s.map((e) => e.id)).slice(0, 40)]));
    } },
    { name: 'sync', quick: 1500, thorough: 60000, async run(t) {
      const r = t.rng; const d = new Device({ seed: t.index }); const p = d.page({ url: 'https://www.example.com/x', seed: t.index }); const pool = Array.from({ length: r.int(1, 20) }, (_, i) => rec(r, i + 1)); const local = r.subset(pool, 0.5); d.localFor(p.origin).set(KEY, JSON.stringify({ events: local, nextId: 50 }));
      const relay = new Map(r.subset(pool, 0.5).map((e) => [e.uuid, e])); let migrated = r.bool(0.4); const fails = { checkMigrated: 0, migrateEvents: 0, readEvents: 0, writeEvent: 0 }; const chaos = r.bool(0.5); if (chaos) fails[r.pick(Object.keys(fails))] = r.pick([0.5, 1]); const sut = p.load(t.sut.tag); const m = new sut.EventStorageManager(API, new sut.SessionManager(API)); const wanted = new Map(local.map((e) => [e.uuid, e])); const PP = p.g.Promise; let meanwhile = 0;
      const step = (name, fn) => new PP((res, rej) => { const late = r.bool(0.3); d.clock.add(null, 'net', () => { if (r.bool(0.2)) { meanwhile++; t.count('sync-meanwhile'); m.addEvent('View', p.json({ meanwhile })); const l = m.getAllEvents(); const e = clone(l[l.length - 1]); wanted.set(e.uuid, e); } if (r.bool(fails[name])) { if (late) fn(); rej(new p.g.Error(name + ' failed')); } else res(fn()); }, r.int(1, 50), []); });
      const client = p.g.Object.create(null); let before = null; Object.assign(client, { relayAvailable: true, flush() {}, checkMigrated: () => step('checkMigrated', () => migrated), migrateEvents: (o, s) => { const c = clone(s.events); return step('migrateEvents', () => { t.count('migrated'); migrated = true; for (const e of c) if (!relay.has(e.uuid)) relay.set(e.uuid, e); }); }, readEvents: () => step('readEvents', () => { before = new Map(relay); return p.json({ events: [...relay.values()], nextId: r.int(1, 90) }); }), writeEvent: (e) => { if (r.bool(fails.writeEvent)) return; const c = clone(e); if (relay.has(c.uuid) && before) t.violation('pushed-twice', { uuid: c.uuid }); relay.set(c.uuid, c); } }); if (r.bool(0.6)) m.setRelayClient(client);
      try {
        for (let i = 0; i < 2; i++) {
          before = null; let res; const q = m.syncFromRelay(client); q.then((x) => { res = x; }, (e) => { res = e; }); for (let j = 0; j < 40 && res === undefined; j++) { await d.clock.advance(20); await turn(); }
          t.check(typeof res === 'boolean', 'sync-never-settled', { res: String(res) }); const l = clone(m.getAllEvents()); const got = new Map(l.map((e) => [e.uuid, e]));
          for (const [u] of wanted) t.check(got.has(u), 'sync-lost-event', { u, res }); t.check(got.size === l.length, 'sync-repeated-event', {});
          if (res === true) { t.count('synced'); if (i) t.count('sync-again'); for (const [u] of before) t.check(got.has(u), 'relay-event-missing', { u }); for (let k = 1; k < l.length; k++) t.check(l[k - 1].timestamp <= l[k].timestamp, 'order', {}); if (!fails.writeEvent) for (const u of got.keys()) if (i || local.some((e) => e.uuid === u)) t.check(relay.has(u), 'not-pushed', { u, i }); for (const u of got.keys()) wanted.set(u, got.get(u)); } else { t.count('sync-failed'); t.check(chaos, 'sync-failed-without-fault', {}); }
          t.evaluated(canon([t.index % 5000, i, res, [...relay.keys()].length, l.length])); Object.keys(fails).forEach((k) => { fails[k] = 0; });
        }
        await d.clock.advance(500); t.equal(stored(d, p).events, clone(m.getAllEvents()), 'sync-not-persisted', {});
      } catch (e) { t.violation('sync-threw', { e: String(e.stack || e).slice(0, 300) }); }
    } },
    { name: 'attached', quick: 800, thorough: 30000, async run(t) {
      const r = t.rng; const d = new Device({ seed: t.index }); const p = d.page({ url: 'https://www.example.com/x', seed: t.index }); noUuid(r, p, t); const sut = p.load(t.sut.tag); const m = new sut.EventStorageManager(API, new sut.SessionManager(API)); const ops = []; let rel = null; const mk = () => { const c = { got: [], flushes: 0 }; c.client = Object.assign(p.g.Object.create(null), { relayAvailable: true, writeEvent: (e) => { c.got.push(clone(e)); }, flush: () => { c.flushes++; } }); return c; };
      const all = [];
      try { for (let i = r.int(3, 15); i-- > 0;) { const k = r.weighted([[5, 'add'], [1, 'attach'], [0.7, 'detach'], [1, 'hide'], [1, 'unload'], [0.5, 'flush'], [1, 'time'], [0.5, 'unavailable']]); ops.push(k); const f = rel?.flushes;
        if (k === 'add') { const n = rel?.got.length; m.addEvent(r.pick(TYPES), p.json(props(r))); const l = m.getAllEvents(); if (rel) { t.count('relayed'); t.check(rel.got.length === n + 1, 'not-relayed-once', { ops, n: rel.got.length - n }); t.equal(rel.got[rel.got.length - 1], clone(l[l.length - 1]), 'relayed-event', { ops }); } else t.count('not-attached'); }
        else if (k === 'attach') { if (rel) all.push([rel, rel.got.length]); rel = mk(); m.setRelayClient(rel.client); }
        else if (k === 'detach') { if (rel) all.push([rel, rel.got.length]); rel = null; m.setRelayClient(null); }
        else if (k === 'hide') { p.hidden = true; (p.doc || p.dom.window.document).dispatch('visibilitychange', { type: 'visibilitychange' }); p.hidden = false; if (rel) { t.count('relay-flush'); t.check(rel.flushes > f, 'relay-not-flushed', { ops }); } }
        else if (k === 'unload') { p.win.dispatch('beforeunload', { type: 'beforeunload' }); if (rel) { t.count('relay-flush'); t.check(rel.flushes > f, 'relay-not-flushed', { ops }); } }
        else if (k === 'flush') { m.flush(); if (rel) t.check(rel.flushes > f, 'relay-not-flushed', { ops }); }
        else if (k === 'time') await d.clock.advance(r.pick([10, 600]));
        else { t.count('relay-unavailable'); const before = clone(m.getAllEvents()); const x = mk(); x.client.relayAvailable = false; for (const n of ['checkMigrated', 'migrateEvents', 'readEvents']) x.client[n] = () => { t.violation('asked-unavailable-relay', { n }); return p.g.Promise.reject(new p.g.Error('unavailable')); }; let res; m.syncFromRelay(x.client).then((v) => { res = v; }, (e) => { res = e; }); await turn(); await turn(); t.check(res === false, 'unavailable-sync-result', { res: String(res) }); t.equal(clone(m.getAllEvents()), before, 'unavailable-sync-changed', {}); }
        const u = m.getAllEvents().map((e) => e.uuid); t.check(new Set(u).size === u.length && u.every((x) => typeof x === 'string' && x), 'event-ids', { ops }); for (const [c, n] of all) t.check(c.got.length === n, 'detached-relay-written', { ops }); t.evaluated(canon([ops.slice(-4), rel?.got.length]));
      } } catch (e) { t.violation('attached-threw', { ops, e: String(e.stack || e).slice(0, 300) }); }
    } },
    { name: 'windows', quick: 800, thorough: 30000, async run(t) {
      const r = t.rng; const d = new Device({ seed: t.index }); const p = d.page({ url: 'https://www.example.com/x', seed: t.index }); const sut = p.load(t.sut.tag); const sm = new sut.SessionManager(API); const m = new sut.EventStorageManager(API, sm); const H = 3600e3; const now = d.clock.now; let last;
      try { for (let i = r.int(1, 12); i-- > 0;) { m.addEvent(r.pick(TYPES.slice(0, 3)), p.json({ i }), r.bool(0.7) ? d.clock.now - r.pick([0, 1, H - 1, H, H + 1, 2 * H, 24 * H - 1, 24 * H, 24 * H + 1, 48 * H, 72 * H]) : undefined); if (r.bool(0.3)) await d.clock.advance(r.pick([1, 1000, 1800e3, 1800e3 + 1, H])); }
        const l = clone(m.getAllEvents()); const cur = sm.getCurrentSessionId(); for (let k = 0; k < 8; k++) { const ty = r.pick(TYPES.slice(0, 3)); const cs = r.bool(0.3); const v = r.pick([1, 2, 3, 24, 48, 0]); const iv = r.pick(['day', 'hour', undefined]); const want = l.filter((e) => e.event_type === ty && (cs ? e.session_id === cur : e.timestamp >= d.clock.now - v * (iv === 'day' ? 24 : 1) * H)); t.count(cs ? 'window-session' : 'window-rolling'); const got = clone(m.getEventsInTimeWindow(ty, cs ? 'current_session' : 'rolling', v, iv)); t.equal(got, want, 'window-events', { ty, cs, v, iv }); t.check(m.getEventCountInTimeWindow(ty, cs ? 'current_session' : 'rolling', v, iv) === want.length, 'window-count', { ty, cs, v, iv }); t.evaluated(canon([t.index % 2000, ty, cs, v, iv, want.length])); }
      } catch (e) { t.violation('windows-threw', { e: String(e.stack || e).slice(0, 300) }); }
    } },
    { name: 'consent', quick: 1000, thorough: 30000, async run(t) {
      const r = t.rng; const d = new Device({ seed: t.index }); const p = d.page({ url: 'https://www.example.com/x', seed: t.index }); const old = r.bool(0.7) ? Array.from({ length: r.int(1, 6) }, (_, i) => rec(r, i + 1)) : []; if (old.length) d.localFor(p.origin).set(KEY, JSON.stringify({ events: old, nextId: 40 })); const raw = d.localFor(p.origin).get(KEY); const sut = p.load(t.sut.tag); sut.consentGate.required = true; t.count('consent-pending');
      try {
        const m = new sut.EventStorageManager(API, new sut.SessionManager(API)); t.check(m.getAllEvents().length === 0, 'read-before-consent', {}); const mine = []; for (let i = r.int(0, 5); i-- > 0;) { m.addEvent(r.pick(TYPES), p.json({ i })); const l = m.getAllEvents(); mine.push(clone(l[l.length - 1])); await d.clock.advance(r.pick([1, 100, 600])); if (r.bool(0.2)) p.win.dispatch('beforeunload', {}); t.check(d.localFor(p.origin).get(KEY) === raw, 'written-before-consent', {}); } t.equal(clone(m.getAllEvents()), mine, 'shown-events', {});
        const end = r.pick(['granted', 'denied']); sut.consentGate.manager.setStatus(end); t.count('consent-' + end);
        if (end === 'granted') { const want = [...old, ...mine]; if (old.length && mine.length) t.count('consent-merged'); t.equal(clone(m.getAllEvents()), want, 'events-after-grant', { old: old.length, mine: mine.length }); if (want.length) t.equal(stored(d, p)?.events ?? [], want, 'grant-not-persisted', {}); m.addEvent('Click', p.json({})); await d.clock.advance(500); t.equal(stored(d, p)?.events ?? [], clone(m.getAllEvents()), 'persisting-after-grant', {}); }
        else { t.check(m.getAllEvents().length === 0, 'kept-after-denial', {}); m.addEvent('Click', p.json({})); await d.clock.advance(1000); m.flush(); p.win.dispatch('beforeunload', {}); t.check(d.localFor(p.origin).get(KEY) === raw, 'written-after-denial', {}); if (r.bool()) { sut.consentGate.manager.setStatus('granted'); await d.clock.advance(1000); m.addEvent('View', p.json({ re: 1 })); await d.clock.advance(500); const s = stored(d, p)?.events ?? []; for (const e of mine) t.check(!s.some((x) => x.uuid === e.uuid), 'refused-events-written', {}); t.check(s.some((x) => x.properties.re === 1), 'not-persisting-after-regrant', {}); } }
        t.evaluated(canon([old.length, mine.length, end, t.index % 300]));
      } catch (e) { t.violation('consent-threw', { e: String(e.stack || e).slice(0, 300) }); }
    } },
  ],
};
