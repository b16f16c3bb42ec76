import { Device } from '../lib/env.mjs';
import { canon, clone, turn } from '../lib/util.mjs';
const ENTRY = `export * from '@src/tag/behavioral-targeting/relay-client'; export * from '@src/tag/behavioral-targeting/relay-protocol';`;
const API = 'client-0123456789'; const T = 2000;
const ev = (i) => ({ uuid: 'u' + i, id: i, event_type: 'View', timestamp: 1_700_000_000_000 + i, session_id: 's', properties: { i } });
/** A page whose iframes have a window that records what is posted to it. */
function setup(t, r, opts = {}) {
  const d = new Device({ seed: t.index }); const p = d.page({ url: 'https://www.example.com/x', seed: t.index }); const doc = p.g.document; const frames = []; const mk = doc.createElement;
  doc.createElement = (tag) => { const el = mk(tag); if (String(tag).toLowerCase() === 'iframe') { el.contentWindow = { posted: [], postMessage(m, o) { if (opts.refuse && opts.refuse(m)) throw new p.g.Error('DataCloneError'); const x = { m: clone(m), o, at: d.clock.now, frame: el }; this.posted.push(x); opts.onPost && opts.onPost(x); } }; frames.push(el); } return el; };
  const sut = p.load(t.sut.tag); const listeners = () => (p.win.ls?.message || p.win.listeners?.message || []).length;
  const say = (origin, source, data) => p.win.dispatch('message', { type: 'message', origin, source, data: p.json({ d: data }).d });
  return { d, p, doc, frames, sut, say, listeners, attached: () => doc.body ? doc.body.children.filter((c) => c.tagName === 'IFRAME') : [] };
}
export default {
  property: 'C38', bundles: { tag: ENTRY },
  rule: 'rpc: random histories of requests and event writes against a scripted relay that loses, delays, repeats, reorders and refuses answers, mixed with forged messages (other origins, other windows, wrong ids, before the frame is ready, malformed), timeouts, frames that never or late become ready, late bodies, destruction and re-initialisation; a monitor on every posted message and every promise decides: only a genuine answer to that very request settles it, nothing settles late or never, nothing is posted elsewhere than to the relay, every unacknowledged write is posted again on each flush and an acknowledged one is not. urls: relay address per zone and override. Non-trivial = distinct history.',
  requires: ['answered', 'refused', 'lost', 'late-answer', 'repeated', 'reordered', 'forged-origin', 'forged-source', 'forged-id', 'forged-before-ready', 'malformed', 'timed-out', 'destroyed-outstanding', 'never-ready', 'late-ready', 'late-body', 'reinit', 'write-acked', 'write-resent', 'write-before-ready', 'write-refused', 'post-throws', 'stale-frame', 'waited', 'url'],
  workloads: [
    { name: 'rpc', quick: 4000, thorough: 200000, async run(t) {
      const r = t.rng; const lossy = r.pick([0, 0.2, 0.5]); let poison = false; const seen = []; const S = setup(t, r, { onPost: (x) => { seen.push(x); serve(x); }, refuse: () => poison }); const { d, p, frames, sut, say, doc } = S; const clock = d.clock; const base = r.bool(0.7) ? undefined : r.pick(['https://relay.example.net', 'http://localhost:3000/', 'https://relay.example.net:8443//']); const url = sut.getRelayUrl(API, r.pick([undefined, 'US', 'EU']), base); const origin = new URL(url).origin; const ops = []; const body = doc.body; const lateBody = r.bool(0.15); if (lateBody) doc.body = null;
      const c = new sut.RelayClient(API, 'visitor-1', url); const calls = []; const store = new Map(); const acked = new Set(); const queued = new Map(); let live = null; let ready = false; let dead = false; let expectAll = false; void expectAll; let seq = 0; let inited = false;
      // the relay: answers, loses, delays or repeats
      const serve = (x) => {
        const m = x.m; t.check(x.o === origin, 'posted-to-other-origin', { o: x.o, origin }); t.check(!dead, 'posted-after-destroy', { type: m.type }); t.check(ready && x.frame === live, 'posted-before-ready', { type: m.type, ready }); t.check(m.apiKey === API && m.web_exp_id_v2 === 'visitor-1' && typeof m.requestId === 'string' && m.requestId, 'request-shape', { m }); t.check(seen.filter((y) => y.m.requestId === m.requestId).length === 1, 'request-id-reused', { id: m.requestId });
        let reply = { requestId: m.requestId, ok: !r.bool(0.15), tag: 'genuine' }; let fx = () => {};
        if (m.type === 'WRITE_EVENT') { const e = m.payload.event; x.write = e.uuid; if (reply.ok) fx = () => { store.set(e.uuid, e); }; } else if (m.type === 'READ_EVENTS') reply.payload = r.bool(0.9) ? { events: [ev(1000 + seen.length)], nextId: 5 } : undefined; else if (m.type === 'CHECK_MIGRATED') reply.payload = r.pick([{ migrated: true }, { migrated: false }, {}, undefined]);
        if (!reply.ok) reply.error = r.bool() ? 'no ' + seq : undefined; x.reply = reply; const call = calls.find((k) => !k.req && k.type === m.type && k.expect); if (call) { call.req = m.requestId; call.reply = reply; call.expect = false; }
        if (r.bool(lossy)) { x.lost = true; t.count('lost'); return; } const delay = r.weighted([[5, () => r.int(0, 50)], [2, () => r.int(0, 1999)], [1, () => T - 1], [1, () => T], [1, () => r.int(2001, 4000)]])(); const frame = x.frame; const n = r.bool(0.15) ? 2 : 1; if (n > 1) t.count('repeated'); if (delay > T) t.count('late-answer'); fx();
        for (let i = 0; i < n; i++) clock.add(null, 'net', () => { x.deliveredAt ??= clock.now; if (!dead && frame === live && reply.ok && m.type === 'WRITE_EVENT' && clock.now < x.at + T && !x.timedOut) { acked.add(m.payload.event.uuid); queued.delete(m.payload.event.uuid); t.count('write-acked'); } if (seen.some((y) => y.at > x.at && y.deliveredAt !== undefined && y.deliveredAt < clock.now)) t.count('reordered'); say(origin, frame.contentWindow, reply); }, delay + i * r.int(0, 30), []);
        if (m.type === 'WRITE_EVENT') clock.add(null, 'net', () => { x.timedOut = true; }, T, []);
      };
      const track = (name, type, fn) => { const k = { name, type, at: clock.now, expect: ready && !dead && !poison, could: ready && !dead && !poison, settled: 0 }; calls.push(k); let pr; try { pr = fn(); } catch (e) { t.violation('threw', { name, e: String(e) }); return; } k.expect = false; const fin = (how, v) => { k.settled++; k.how = how; k.v = v; k.end = clock.now; }; pr.then((v) => fin('ok', v), (e) => fin('error', e)); return k; };
      const judge = () => { for (const k of calls) {
        if (k.judged) continue; const limit = k.limit ?? T; if (!k.settled) { if (clock.now > k.at + limit || (dead && k.name !== 'x')) { t.violation('never-settled', { name: k.name, age: clock.now - k.at, dead, ops: ops.slice(-8) }); k.judged = true; } continue; }
        k.judged = true; t.check(k.end <= k.at + limit, 'settled-late', { name: k.name, after: k.end - k.at, ops: ops.slice(-8) });
        if (k.name === 'init' || k.name === 'wait') { if (k.name === 'wait') { t.count('waited'); t.check(k.how === 'ok' && typeof k.v === 'boolean', 'wait-result', { k }); } continue; }
        if (!k.could) { t.check(k.how === 'error', 'answered-without-relay', { name: k.name, v: k.v }); continue; }
        const x = seen.find((y) => y.m.requestId === k.req); const timely = x && x.deliveredAt !== undefined && x.deliveredAt <= k.end && x.frame === k.frame; 
        if (k.how === 'ok') { t.count('answered'); if (t.check(timely && k.reply.ok, 'settled-without-answer', { name: k.name, v: canon(k.v), reply: k.reply, ops: ops.slice(-8) })) t.equal(clone(k.v), k.name === 'readEvents' ? k.reply.payload ?? { events: [], nextId: 1 } : k.name === 'checkMigrated' ? !!k.reply.payload?.migrated : undefined, 'wrong-answer', { name: k.name, reply: k.reply }); }
        else if (timely && !k.reply.ok) t.count('refused'); else if (k.killed && k.end >= k.killed) t.count('destroyed-outstanding'); else { t.count('timed-out'); t.check(k.end === k.at + T, 'failed-early', { name: k.name, after: k.end - k.at, e: String(k.v), ops: ops.slice(-8) }); }
      } };
      const rpc = (name) => { const type = { readEvents: 'READ_EVENTS', checkMigrated: 'CHECK_MIGRATED', migrateEvents: 'MIGRATE_EVENTS' }[name]; const k = track(name, type, () => name === 'readEvents' ? c.readEvents() : name === 'checkMigrated' ? c.checkMigrated('https://www.example.com') : c.migrateEvents('https://www.example.com', p.json({ events: [ev(1)], nextId: 2 }))); if (k) k.frame = live; };
      const goReady = () => { const missing = [...queued.keys()]; const mark = seen.length; ready = true; say(origin, live.contentWindow, r.pick(['AMP_RELAY_READY', { type: 'AMP_RELAY_READY' }])); t.check(c.relayAvailable === true, 'ready-ignored', {}); for (const u of missing) { t.count('write-before-ready'); t.check(seen.slice(mark).filter((x) => x.write === u).length === 1, 'queued-write-not-sent-when-ready', { u, ops: ops.slice(-8) }); } };
      const init = () => { const k = track('init', '', () => c.init()); if (k) k.limit = T; inited = true; if (doc.body) { const f = S.attached(); t.check(f.length === 1 && f[0].src === url, 'frame', { n: f.length, src: f[0]?.src }); live = f[0]; } else t.count('late-body'); };
      if (r.bool(0.9)) init(); const n = r.int(6, 30); const readyAt = r.weighted([[6, () => r.int(0, 3)], [2, () => r.int(3, 15)], [1, () => 99]])(); if (readyAt === 99) t.count('never-ready');
      for (let i = 0; i < n; i++) {
        if (doc.body === null && r.bool(0.4)) { doc.body = body; await clock.advance(40); if (inited && !dead) { live = S.attached()[0]; t.check(!!live, 'no-frame-after-body', {}); } }
        if (!ready && !dead && inited && live && i >= readyAt) { if (calls[0] && clock.now > calls[0].at + T) t.count('late-ready'); goReady(); }
        const k = r.weighted([[4, 'rpc'], [5, 'write'], [5, 'time'], [4, 'forge'], [2, 'flush'], [0.5, 'destroy'], [0.6, 'wait'], [0.5, 'poison'], [0.2, 'init']]); ops.push(k);
        if (k === 'rpc') rpc(r.pick(['readEvents', 'checkMigrated', 'migrateEvents']));
        else if (k === 'init') { if (inited && !dead) { const before = frames.length; track('init', '', () => c.init()); t.check(frames.length === before, 'second-frame', {}); } }
        else if (k === 'write') { const e = ev(r.bool(0.15) && seq ? r.int(1, seq) : ++seq); const mark = seen.length; try { c.writeEvent(p.json(e)); } catch (er) { t.violation('threw', { op: 'write', e: String(er) }); } if (!dead) { queued.set(e.uuid, e); acked.delete(e.uuid); if (ready) t.check(seen.slice(mark).filter((x) => x.write === e.uuid).length === 1, 'write-not-sent', { u: e.uuid }); } else t.check(seen.length === mark, 'posted-after-destroy', {}); }
        else if (k === 'flush') { const mark = seen.length; try { c.flush(); } catch (er) { t.violation('threw', { op: 'flush', e: String(er) }); } if (ready && !dead) { const sent = seen.slice(mark).map((x) => x.write).sort(); if (sent.length) t.count('write-resent', sent.length); t.equal(sent, [...queued.keys()].sort(), 'flush-sent', { ops: ops.slice(-8) }); } else t.check(seen.length === mark, 'flushed-without-relay', {}); }
        else if (k === 'time') { await clock.advance(r.pick([0, 1, 10, 60, 500, 1999, 2000, 2001])); judge(); continue; }
        else if (k === 'forge') {
          const pend = calls.filter((x) => !x.settled && x.req).map((x) => x.req); const w = seen.filter((x) => x.write && !acked.has(x.write)).map((x) => x.m.requestId); const id = r.pick([...pend, ...w, ...seen.map((x) => x.m.requestId)].slice(0, 20).concat('none')); const evil = { requestId: id, ok: true, payload: { events: [{ uuid: 'evil' }], nextId: 666, migrated: true } }; const fw = live && live.contentWindow; const avail = c.relayAvailable;
          const kind = r.pick(['origin', 'source', 'id', 'ready', 'malformed', 'stale']);
          try {
            if (kind === 'origin') { t.count('forged-origin'); say(r.pick(['https://evil.com', 'null', '', origin + '.evil.com', origin.replace('https', 'http') + ':1', origin.toUpperCase(), 'https://www.example.com']), fw, r.pick([evil, 'AMP_RELAY_READY'])); }
            else if (kind === 'source') { t.count('forged-source'); say(origin, r.pick([p.g, null, undefined, {}, { postMessage() {} }]), r.pick([evil, 'AMP_RELAY_READY'])); }
            else if (kind === 'id') { t.count('forged-id'); say(origin, fw, { ...evil, requestId: r.pick(['x', '', '__proto__', 'constructor', 5]) }); }
            else if (kind === 'ready') { if (!ready && fw) { t.count('forged-before-ready'); say('https://evil.com', fw, 'AMP_RELAY_READY'); say(origin, p.g, { type: 'AMP_RELAY_READY' }); say(origin, fw, r.pick(['RELAY_READY', { type: 'x' }, { t: 'AMP_RELAY_READY' }, ['AMP_RELAY_READYx']])); t.check(c.relayAvailable === false, 'forged-ready-believed', {}); } }
            else if (kind === 'stale') { const old = frames.find((f) => f !== live); if (old) { t.count('stale-frame'); say(origin, old.contentWindow, r.pick([evil, 'AMP_RELAY_READY'])); } }
            else { t.count('malformed'); say(r.pick([origin, origin, 'https://x.y']), fw, r.pick([null, undefined, 5, 'x', '', [], [1], {}, { requestId: null }, { requestId: {} }, { requestId: [] }, true])); }
          } catch (er) { t.violation('message-threw', { kind, e: String(er) }); }
          t.check(c.relayAvailable === avail, 'forged-ready-believed', { kind });
          await turn();
        }
        else if (k === 'wait') { const ms = r.pick([undefined, 100, 3000]); const q = track('wait', '', () => ms === undefined ? c.waitForAvailable() : c.waitForAvailable(ms)); if (q) { q.limit = ms ?? T; } }
        else if (k === 'poison') { if (ready && !dead) { t.count('post-throws'); poison = true; const e = ev(++seq); queued.set(e.uuid, e); try { c.writeEvent(p.json(e)); } catch (er) { t.violation('threw', { op: 'write with a throwing frame', e: String(er) }); } rpc('readEvents'); await turn(); poison = false; } }
        else if (k === 'destroy' && inited) {
          const out = calls.filter((x) => !x.settled); for (const x of out) x.killed = clock.now; try { c.destroy(); } catch (er) { t.violation('threw', { op: 'destroy', e: String(er) }); } dead = true; ready = false; queued.clear(); await turn(); await turn(); judge(); t.check(c.relayAvailable === false, 'available-after-destroy', {}); t.check(S.attached().length === 0, 'frame-left', {}); live = null;
          if (r.bool(0.6)) { await clock.advance(r.pick([0, 500, 3000])); dead = false; t.count('reinit'); init(); }
        }
        await turn(); judge(); t.evaluated(canon([t.index, i]));
      }
      if (ready && !dead) { const mark = seen.length; c.flush(); t.equal(seen.slice(mark).map((x) => x.write).sort(), [...queued.keys()].sort(), 'flush-sent', { ops: ops.slice(-8) }); }
      await clock.advance(T); await turn(); judge(); await clock.advance(5000); judge(); if (seen.some((x) => x.write && x.reply && !x.reply.ok)) t.count('write-refused'); t.check(!store.has('evil'), 'evil', {});
      for (const e of clock.errors) t.violation('timer-threw', { e: String(e) });
    } },
    { name: 'urls', quick: 200, thorough: 2000, run(t) {
      const r = t.rng; const S = setup(t, r); const zone = r.pick([undefined, 'US', 'EU', 'eu', '']); const over = r.pick([undefined, '', 'https://relay.test', 'https://relay.test/', 'https://relay.test//', 'http://localhost:3035']); const key = r.pick(['client-abc', 'k']); t.count('url'); const want = `${over ? over.replace(/\/+$/, '') : zone === 'EU' ? 'https://cdn.eu.amplitude.com' : 'https://cdn.amplitude.com'}/script/${key}.relay.html`; t.check(S.sut.getRelayUrl(key, zone, over) === want, 'url', { zone, over, want }); t.evaluated(canon([zone, over, key]));
    } },
  ],
};
