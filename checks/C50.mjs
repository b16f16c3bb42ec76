import { Device } from '../lib/env.mjs';
import { canon, clone, turn } from '../lib/util.mjs';
import { TAG, API, K10, tagPage, configs, flag, page, recorder } from '../lib/tag.mjs';
const H = 3_600_000; const RELAY = 'https://cdn.amplitude.com'; const HOSTS = ['https://www.example.com', 'https://shop.example.com']; const CAP = 500;
const OPS = ['greater or equal', 'greater or equal', 'greater', 'is', 'less', 'less or equal', 'is not']; const cmp = { 'greater or equal': (a, b) => a >= b, greater: (a, b) => a > b, is: (a, b) => a === b, less: (a, b) => a < b, 'less or equal': (a, b) => a <= b, 'is not': (a, b) => a !== b };
const counted = (c, hist, now) => hist.filter((e) => e.ty === c.event_type && e.at >= now - c.time_value * (c.interval === 'day' ? 24 : 1) * H && (c.event_props ?? []).every((q) => String(e.props[q.selector[1]]) === q.values[0])).length;
const match = (rules, hist, now) => rules.some((g) => g.every((s) => { const v = cmp[s.condition.op](counted(s.condition, hist, now), s.condition.value); return s.negated ? !v : v; }));
const bare = (v) => v.replace(/#.*/, '');
export default {
  property: 'C50', bundles: { tag: TAG },
  rule: 'visits: visitors of two hosts of a site load pages of the whole tag whose flags target on behaviors, with random rules over events, counts, windows and properties, over the events of earlier visits and of a relay that answers, delays, fails or is missing; events come singly and in bursts, before, while and after the tag starts, while variants are being applied, across navigations and the expiry of windows. After every step the behaviors the user carries must be exactly those an independent evaluator gives (each behavior as of the last event of its type, page load or relay merge), and once the page has settled the mutations in effect exactly those of the variants of that user on the active pages. sessions: rules over the current session, with gaps around the inactivity window, events no rule asks for, page loads and two hosts. Non-trivial = distinct (rules, history).',
  requires: ['gained-by-event', 'lost-by-event', 'lost-initial', 'lost-after-navigation', 'gained-by-relay', 'lost-by-relay', 'relay-merge', 'relay-failing', 'early-events', 'burst', 'event-while-applying', 'navigated', 'reload', 'other-host', 'window-expired', 'remote-flag', 'two-behaviors', 'previewed', 'negated', 'event-during-sync', 'variant-applied', 'variant-reverted', 'evicted', 'shared', 'relay-late', 'session-kept-by-other', 'session-rotated', 'session-counted', 'session-other-host'],
  workloads: [
    { name: 'visits', quick: 1200, thorough: 50000, async run(t) {
      const r = t.rng; const d = new Device({ seed: t.index }); const tab = d.tab(); const types = ['View', 'Buy', 'Sign Up'].slice(0, r.int(1, 3)); let seq = 0; const ops = [];
      const cond = () => { const c = { type: 'behavior', event_type: r.pick(types), op: r.pick(OPS), value: r.int(0, 3), time_type: 'rolling', time_value: r.pick([1, 1, 2]), interval: r.pick(['hour', 'day']) }; if (r.bool(0.2)) c.event_props = [{ selector: ['context', 'cat'], op: 'is', values: [r.pick(['a', 'b'])] }]; const s = { condition: c }; if (r.bool(0.15)) { s.negated = true; t.count('negated'); } return s; };
      const keys = ['f1', 'f2', 'f3'].slice(0, r.int(1, 3)); const rules = {}; const flags = []; const pages = {}; const all = []; const where = {}; let remoteAny = false;
      for (const f of keys) {
        const remote = r.bool(0.2); if (remote) { remoteAny = true; t.count('remote-flag'); } const bs = r.bool(0.35) ? ['b1', 'b2'] : ['b1']; if (bs.length > 1) t.count('two-behaviors'); rules[f] = {}; for (const b of bs) { const id = f + b; const ru = r.list(1, 2, () => r.list(1, 2, cond)); rules[f][id] = ru; all.push({ f, id, ru, ty: new Set(ru.flat().map((s) => s.condition.event_type)) }); }
        const mut = (v) => [{ action: 'mutate', data: { mutations: [{ selector: '#' + f, action: 'set', attribute: 'html', value: f + v }] } }]; where[f] = r.pick([null, null, '/shop']); pages[f] = { [f + 'p']: page(f + 'p', { conditions: where[f] ? [[{ selector: ['context', 'page', 'url'], op: 'contains', values: [where[f]] }]] : undefined }) };
        flags.push(flag(f, { mode: remote ? 'remote' : 'local', blocking: r.bool(), payloads: { A: mut('A'), B: mut('B'), control: undefined }, when: bs.map((b, i) => [['behavioral_targeting'], 'set contains any', [f + b], 'AB'[i]]), rest: 'off' }));
      }
      const big = r.bool(0.03); const relay = { store: [], migrated: new Set(), mode: r.weighted([[4, 'ok'], [1, 'never'], [1, 'refuse'], [1, 'slow'], [0.4, 'late']]) }; for (let i = r.int(0, r.bool(0.3) ? 4 : 0); i-- > 0;) relay.store.push({ uuid: 'r' + i, id: i + 1, event_type: r.pick(types), timestamp: d.clock.now - r.pick([5, H - 60000, 3 * H, 50 * H]), session_id: 'r', properties: { n: 'r' + i, cat: r.pick(['a', 'b']) } });
      const hists = {}; const docs = r.int(1, 3); let preview = {};
      for (let dn = 0; dn < docs; dn++) {
        const host = r.pick(HOSTS); if (dn) { t.count('reload'); d.clock.skip(r.pick([500, 20 * 60000, H + 211, 2 * H + 905, 25 * H])); } if (dn && !hists[host]) t.count('other-host'); let hist = hists[host] ?? []; preview = r.bool(0.12) ? { [r.pick(keys)]: r.pick(['A', 'B']) } : {}; if (Object.keys(preview).length) t.count('previewed'); tab.sessionFor(host).delete('amp-preview-mode');
        const served = flags.map((f) => ({ ...f, metadata: { ...f.metadata, evaluationMode: 'local' } })); const path = () => r.pick(['/', '/shop', '/shop/x', '/cart']);
        const p = tagPage(d, { url: host + path() + (Object.keys(preview).length ? '?PREVIEW=true&' + new URLSearchParams(preview) : ''), tab, seed: t.index + ':' + dn, fetch: (q) => (/configs/.test(q.url) ? { status: r.pick([200, 500]), body: { flags, pageObjects: pages, behavioralTargetingRules: rules }, delay: r.pick([1, 50]) } : /flags/.test(q.url) ? { status: 200, body: served, delay: r.pick([1, 60, 500]) } : { status: 200, body: '{}', delay: 5 }) });
        recorder(p, { user: { user_id: 'u' } }); p.g.__domMutator = p.eval('({ live: new Map(), events: [], fail: null })'); p.g.__domMutator.fail = () => false;
        // model of this page
        const verdict = new Map(); let running = false; let wait = []; let loaded = false; let merged = -1e9; const applied = new Set(); const carried = new Set(); let navs = 0;
        const now = () => d.clock.now; const evalAll = (why) => { for (const x of all) set(x, match(x.ru, hist, now()), why); }; const set = (x, v, why) => { const old = verdict.get(x.id); verdict.set(x.id, v); if (old !== undefined && old !== v) { if (why === 'relay') t.count(v ? 'gained-by-relay' : 'lost-by-relay'); else { t.count(v ? 'gained-by-event' : 'lost-by-event'); if (!v && x.initial) t.count('lost-initial'); if (!v && navs) t.count('lost-after-navigation'); } } if (why === 'load') x.initial = v; };
        let startedAt = null; const deliver = (e, at = now()) => { hist.push({ ...e, at }); if (hist.length > CAP) { hist = hist.slice(-CAP); t.count('evicted'); } for (const x of all) if (x.ty.has(e.ty)) { const v = match(x.ru, hist, now()); if (e && hist.length > 1 && hist.some((h) => h.at < now() - H)) t.count('window-expired'); set(x, v, 'event'); } };
        const keep = new Set(all.flatMap((x) => [...x.ty]));
        // the relay's frame
        const w = p.dom.window; const mk = w.document.createElement.bind(w.document); const later = (fn, ms) => p.clock.add(p, 'relay', fn, ms, []);
        w.document.createElement = (tag, ...a) => { const el = mk(tag, ...a); if (String(tag).toLowerCase() !== 'iframe') return el; const say = (data) => p.win.dispatch('message', { type: 'message', origin: RELAY, source: win, data: p.json({ d: data }).d }); const lag = () => (relay.mode === 'slow' ? r.int(200, 1500) : r.int(0, 30));
          const win = { postMessage: (m0) => { const m = clone(m0); const reply = { requestId: m.requestId, ok: true }; if (m.type === 'CHECK_MIGRATED') reply.payload = { migrated: relay.migrated.has(m.payload?.sourceOrigin ?? host) }; else if (m.type === 'WRITE_EVENT') { if (!relay.store.some((e) => e.uuid === m.payload.event.uuid)) relay.store.push(m.payload.event); } else if (m.type === 'MIGRATE_EVENTS') { relay.migrated.add(m.payload?.sourceOrigin ?? host); const st = m.payload.store ?? m.payload; for (const e of st.events ?? []) if (!relay.store.some((x) => x.uuid === e.uuid)) relay.store.push(e); } else if (m.type === 'READ_EVENTS') reply.payload = { events: clone(relay.store), nextId: relay.store.length + 1 };
            if (relay.mode === 'refuse' && r.bool(0.5)) { reply.ok = false; reply.error = 'no'; if (m.type === 'READ_EVENTS') t.count('relay-failing'); } later(() => { const merge = m.type === 'READ_EVENTS' && reply.ok; sync(); say(reply); if (merge) { merged = now(); t.count('relay-merge'); const by = new Map(hist.map((e) => [e.n, e])); for (const e of reply.payload.events) by.set(e.properties.n, { ty: e.event_type, at: e.timestamp, props: e.properties, n: e.properties.n }); hist = [...by.values()].sort((a, b) => a.at - b.at).slice(-CAP); evalAll('relay'); } }, lag()); } };
          Object.defineProperty(el, 'contentWindow', { value: win }); if (relay.mode !== 'never') later(() => { if (el.isConnected) say('AMP_RELAY_READY'); }, relay.mode === 'late' ? (t.count('relay-late'), r.int(2050, 3800)) : lag()); else t.count('relay-failing'); return el; };
        const sut = p.load(t.sut.tag); const pl = sut.createPlugin(); const client = () => { const c = p.g.webExperiment; return c && !c.isStub ? c : null; };
        const det = (x) => ({ x, host, url: p.url.href, doc: dn, running, relay: relay.mode, preview, rules, ops: ops.slice(-14), hist: hist.slice(-6).map((e) => [e.ty, now() - e.at, e.n]), console: p.consoleLog.slice(0, 2) });
        const sync = () => { if (!running && client()?.isRunning) { running = true; for (const e of wait) deliver(e, startedAt ?? now()); wait = []; } };
        const want = () => all.filter((x) => verdict.get(x.id)).map((x) => x.id).sort();
        const look = (why) => { sync(); if (!running || !client()) return; const u = clone(client().getExperimentClient().getUser()?.behavioral_targeting ?? []); t.equal([...u].sort(), want(), 'behaviors', det({ why })); for (const x of u) carried.add(x); };
        const variant = (f) => { if (Object.hasOwn(preview, f)) return preview[f]; const b = all.filter((x) => x.f === f); const i = b.findIndex((x) => verdict.get(x.id)); return i < 0 ? 'off' : 'AB'[i]; };
        const shown = async (why) => { while (remoteAny && now() - merged < 700) { await p.settle(100); look('settled'); }  const wantM = keys.filter((f) => !where[f] || p.url.href.includes(where[f])).map((f) => [f, variant(f)]).filter(([, v]) => v !== 'off').map(([f, v]) => f + v).sort(); const got = [...p.g.__domMutator.live.values()].map((s) => bare(s.value)).sort(); t.equal(got, wantM, 'variants', det({ why })); for (const m of wantM) { applied.add(m); t.count('variant-applied'); } for (const m of applied) if (!wantM.includes(m)) { t.count('variant-reverted'); applied.delete(m); } };
        const send = () => { const ty = r.bool(0.85) ? r.pick(types) : 'Other'; const n = 'e' + seq++; const props = { n, cat: r.pick(['a', 'b']) }; ops.push(ty); const e = { ty, props, n, at: now() }; sync(); if (!running) { wait.push(e); t.count('early-events'); } pl.execute(p.json({ event_type: ty, event_properties: props })); if (running && keep.has(ty)) deliver(e); if (running) look('event'); };
        wait.push = function (e) { if (keep.has(e.ty)) Array.prototype.push.call(this, e); };
        ops.push('load ' + p.url.href.slice(20)); if (r.bool(0.2)) for (let j = r.int(1, 3); j-- > 0;) send(); sut.initialize(API, configs(p, { flags, pages, behaviors: rules }), p.json({})); const asLoaded = () => { if (!loaded && client()) { loaded = true; evalAll('load'); const c = client(); let v = c.isRunning; if (!v) Object.defineProperty(c, 'isRunning', { get: () => v, set: (x) => { if (x && !v) startedAt = now(); v = x; }, configurable: true, enumerable: true }); } }; asLoaded();
        for (let i = 0; i < 1500 && !client()?.isRunning; i++) { await p.clock.advance(client() ? r.pick([1, 20, 50]) : 1); asLoaded(); await turn(); sync(); if (r.bool(client() ? 0.06 : 0.02)) send(); } if (!t.check(client()?.isRunning, 'never-started', det())) return; look('start');
        if (!Object.keys(preview).length) { await p.settle(60); look('settled'); if (remoteAny || r.bool(0.7)) { await p.settle(700); look('settled'); } await shown('start'); }
        for (let i = 0, n = r.int(3, 10); i < n; i++) {
          const k = r.weighted([[5, 'event'], [2, 'burst'], [2, 'nav'], [1.5, 'time'], [1.5, 'quick']]);
          if (k === 'event') send(); else if (k === 'burst') { t.count('burst'); for (let j = big ? 300 : r.int(2, 6); j-- > 0;) { send(); if (r.bool(0.3)) { await turn(); t.count('event-while-applying'); } } }
          else if (k === 'nav') { const u = host + path(); if (u !== p.url.href) { ops.push('nav ' + u.slice(20)); p.g.history.pushState({}, '', u); navs++; t.count('navigated'); if (r.bool(0.4)) send(); } }
          else if (k === 'time') { const ms = r.pick([100, 2100, 30 * 60000 + 137, H - 20000, H + 311, 24 * H + 537]); ops.push(ms); if (ms > 5000) d.clock.skip(ms); else await p.clock.advance(ms); } else { for (let j = r.int(1, 4); j-- > 0;) { await turn(); send(); } if (relay.mode === 'slow') t.count('event-during-sync'); }
          look('step'); if (r.bool(0.7)) { await p.settle(60); if (remoteAny) await p.settle(700); await turn(); look('settled'); await shown('step'); }
        }
        await p.settle(5000); for (let j = 0; j < 15 && merged < 0 && ['slow', 'late'].includes(relay.mode); j++) { await p.settle(1000); look('end'); } await turn(); look('end'); await shown('end'); if (['ok', 'slow', 'late'].includes(relay.mode)) { t.check(merged > -1e9, 'relay-not-used', det({})); const there = new Set(relay.store.map((e) => e.properties.n)); const lost = hist.map((e) => e.n).filter((n) => !there.has(n)); { t.check(!lost.length, big ? 'not-shared-full' : 'not-shared', det({ lost })); t.count('shared', hist.length); } } t.evaluated(canon([rules, hist.map((e) => [e.ty, e.at])])); hists[host] = hist; p.win.dispatch('pagehide', { type: 'pagehide' }); p.close();
      }
    } },
    { name: 'sessions', quick: 400, thorough: 15000, async run(t) { // counts over the current session: any event keeps it alive, also those no rule asks for
      const r = t.rng; const d = new Device({ seed: t.index }); const tab = d.tab(); const W = 30 * 60000; const k = r.int(1, 3); const neg = r.bool(0.2); const rules = { f: { fb: [[{ condition: { type: 'behavior', event_type: 'View', op: 'greater or equal', value: k, time_type: 'current_session' }, ...(neg ? { negated: true } : {}) }]] } }; const flags = [flag('f', { payloads: { A: [{ action: 'mutate', data: { mutations: [{ selector: '#f', action: 'set', attribute: 'html', value: 'fA' }] } }] }, when: [[['behavioral_targeting'], 'set contains any', ['fb'], 'A']], rest: 'off' })]; const pages = { f: { fp: page('fp') } };
      let S = null; let ids = 0; const views = {}; const ops = []; let prevHost; const live = () => S && d.clock.now - S.last <= W; const touch = (act) => { if (!live()) { if (S) t.count('session-rotated'); S = { id: ++ids, last: d.clock.now }; } else if (act) S.last = d.clock.now; };
      for (let dn = 0, docs = r.int(1, 3); dn < docs; dn++) {
        const host = r.pick(HOSTS); if (prevHost && prevHost !== host) t.count('session-other-host'); prevHost = host; const mine = (views[host] ??= []); const p = tagPage(d, { url: host + '/', tab, seed: t.index + ':' + dn, fetch: (q) => (/flags/.test(q.url) ? { status: 200, body: flags } : { status: 200, body: '{}' }) }); recorder(p, { user: { user_id: 'u' } }); p.g.__domMutator = p.eval('({ live: new Map(), events: [], fail: null })'); p.g.__domMutator.fail = () => false;
        const sut = p.load(t.sut.tag); const pl = sut.createPlugin(); let verdict; const judge = () => { const n = mine.filter((x) => x === S.id).length; verdict = (n >= k) !== neg; if (n) t.count('session-counted'); }; touch(false); judge(); ops.push('load ' + host); sut.initialize(API, configs(p, { flags, pages, behaviors: rules }), p.json({})); const client = () => { const c = p.g.webExperiment; return c && !c.isStub ? c : null; };
        for (let i = 0; i < 60 && !client()?.isRunning; i++) { await p.clock.advance(1); await turn(); } if (!t.check(client()?.isRunning, 'never-started', { ops })) return;
        const look = () => { const u = clone(client().getExperimentClient().getUser()?.behavioral_targeting ?? []); t.equal(u, verdict ? ['fb'] : [], 'session-behaviors', { k, neg, ops, mine, S }); t.evaluated(canon([k, neg, ops])); }; look();
        for (let i = r.int(3, 12); i-- > 0;) { const o = r.weighted([[4, 'View'], [4, 'Other'], [6, 'time']]); if (o === 'time') { const ms = r.pick([60000, 10 * 60000, 20 * 60000, 29 * 60000, W, W + 1, 2 * W]); d.clock.skip(ms); ops.push(ms); continue; }
          ops.push(o); if (o === 'Other' && live() && d.clock.now - S.last > 60000) t.count('session-kept-by-other'); touch(true); if (o === 'View') { mine.push(S.id); judge(); } pl.execute(p.json({ event_type: o, event_properties: {} })); await turn(); look(); }
        await p.settle(200); const got = [...p.g.__domMutator.live.values()].length; t.check(got === (verdict ? 1 : 0), 'variants', { k, neg, ops, mine, got, verdict }); p.win.dispatch('beforeunload', { type: 'beforeunload' }); p.win.dispatch('pagehide', { type: 'pagehide' }); d.clock.skip(r.pick([500, 20 * 60000, W + 5000])); p.close();
      }
    } },
  ],
};
