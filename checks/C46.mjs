import { Device } from '../lib/env.mjs';
import { canon, clone, turn } from '../lib/util.mjs';
import { TAG, API, K10, tagPage, configs, flag, page, recorder } from '../lib/tag.mjs';
const HOST = 'https://www.example.com'; const CAP = 500;
const is = (v) => [[{ selector: ['context', 'data', 'event'], op: 'is', values: [v] }]];
const rule = (ev, n) => [[{ condition: { type: 'behavior', event_type: ev, op: 'greater or equal', value: n, time_type: 'rolling', time_value: 1, interval: 'day' } }]];
export default {
  property: 'C46', bundles: { tag: TAG },
  rule: 'lives: analytics events are sent through every kind of plugin (of the script, of the stub, of the client) before initialize, while the start waits for consent, preview or extension configurations, remote flags or an integration, within the delivery itself (page change subscribers that track) and afterwards, singly and in bursts beyond the limit, with several initialize calls and consent decisions. The stored behavior events, the matched behaviors and the pages activated by events must at every step be those of a queue model: newest 500 kept, delivered in order exactly once when the tag runs, then at once, none of what was tracked while held back. Every event object must come back unchanged, and what the page later does with its properties must not show. Non-trivial = distinct (history, delivered sequence).',
  requires: ['before-initialize', 'while-starting', 'while-held', 'after-start', 'overflow', 'dropped-by-hold', 'during-delivery', 'client-plugin-early', 'second-initialize', 'preview', 'extension', 'editor', 'remote', 'slow-integration', 'failing-configs', 'granted', 'never-granted', 'behavior-reached', 'prior-events', 'odd-event', 'trigger-early', 'trigger-late', 'delivered-late', 'properties-reused'],
  workloads: [
    { name: 'lives', quick: 1500, thorough: 60000, async run(t) {
      const r = t.rng; const d = new Device({ seed: t.index }); const tab = d.tab(); const shape = r.weighted([[4, 'plain'], [1, 'preview'], [0.7, 'extension'], [0.8, 'editor']]); if (shape !== 'plain') t.count(shape);
      const remote = r.bool(0.5); if (remote) t.count('remote'); const hold = r.bool(0.3); const slowInt = r.bool(0.25); const failing = ['preview', 'extension'].includes(shape) && r.bool(0.4); if (failing) t.count('failing-configs');
      const TR = ['T0', 'T1', 'T2', 'T3']; const flags = [flag('ev', { payloads: { treatment: [] } }), ...(remote ? [flag('rem', { mode: 'remote', payloads: { treatment: [] } })] : []), ...(slowInt ? [flag('holdout-x', { payloads: { treatment: [] } })] : [])]; if (slowInt) t.count('slow-integration');
      const pages = { ev: Object.fromEntries([...TR.map((x) => [x, page(x, { type: 'analytics_event', value: is(x) })])]), ...(remote ? { rem: { u: page('u') } } : {}) }; const need = { S1: r.pick([1, 3, 40]), S2: r.pick([1, 5, 300]) }; const behaviors = { ev: { b1: rule('S1', need.S1) }, other: { b2: rule('S2', need.S2) } };
      const prior = r.bool(0.4) ? r.list(1, r.pick([3, 450]), (_, i) => ({ uuid: 'u' + i, id: i + 1, event_type: r.pick(['S1', 'S2']), timestamp: d.clock.now - 1000 * (500 - i), session_id: 'old', properties: { n: 'p' + i } })) : []; if (prior.length) { t.count('prior-events'); prior.forEach((e, i) => { e.id = i + 1; e.uuid = 'u' + i; e.timestamp = d.clock.now - 100000 + i; e.properties.n = 'p' + i; }); d.localFor(HOST).set(K10 + '_rtbt_events', JSON.stringify({ events: prior, nextId: prior.length + 1 })); }
      const p = tagPage(d, { url: HOST + '/' + ({ preview: '?PREVIEW=true&ev=treatment', editor: '?VISUAL_EDITOR=true' }[shape] ?? ''), tab, seed: t.index, fetch: (q) => (/configs/.test(q.url) ? { status: failing ? r.pick([500, 403]) : 200, body: { flags, pageObjects: pages, behavioralTargetingRules: behaviors }, delay: r.pick([1, 50, 900]) } : /flags/.test(q.url) ? { status: r.pick([200, 200, 500]), body: flags.map((f) => ({ ...f, metadata: { ...f.metadata, evaluationMode: 'local' } })), delay: r.pick([1, 100, 2000]) } : { status: 200, body: '{}', delay: 5 }) });
      if (shape === 'editor') p.g.opener = p.g; if (shape === 'extension') p.g.WebExperiment = p.json({ injectedByExtension: true }); recorder(p, { user: { user_id: 'u' } }); if (slowInt) p.g.experimentIntegration.setup = () => new p.g.Promise((ok) => p.g.setTimeout(ok, r.pick([0, 30, 700])));
      const sut = p.load(t.sut.tag); let inits = 0; let held = false; let status = 'pending'; let explicit = false; let launched = false; let running = false; const plugins = []; const ops = []; let seq = 0; let busy = false;
      // the model: what waits, what was delivered
      let wait = []; const got = prior.map((e) => ({ type: e.event_type, n: e.properties.n })); let armed = false; const erase = () => { if (!launched && armed && status === 'denied' && got.length) { got.length = 0; t.count('prior-erased'); } }; const fired = new Set(); let lateTrig = 0;
      const deliver = (e, early) => { if (/^S[12]$/.test(e.type)) got.push(e); if (TR.includes(e.type)) { fired.add(e.type); t.count(early ? 'trigger-early' : 'trigger-late'); } };
      const client = () => { const c = p.g.webExperiment; return c && !c.isStub ? c : null; };
      const det = (x) => ({ x, shape, hold, remote, slowInt, failing, held, status, launched, running, ops: ops.slice(-25), console: p.consoleLog.slice(0, 2) });
      const sync = () => { if (!running && client()?.isRunning) { running = true; t.check(launched, 'ran-while-held', det()); if (wait.length) t.count('delivered-late', wait.length); for (const e of wait) deliver(e, true); wait = []; } };
      const active = () => Object.keys(client()?.getActivePages().ev ?? {}).filter((x) => TR.includes(x)).sort();
      const look = (why) => { sync(); if (client()) t.equal(active(), [...fired].sort(), 'pages', det({ why, running })); };
      const send = (pl, type, props) => { // one event through a plugin
        const now = !!client()?.isRunning; if (now && !running && !busy) sync(); const ev = p.json({ event_type: type, event_properties: props, time: 5, nested: { a: [1] } }); if (props === undefined) delete ev.event_properties; const before = canon(clone(ev)); let q; const e = { type, n: props?.n };
        if (now && !running) { if (pl.own) deliver(e); else { wait.push(e); t.count('during-delivery'); } } // tracked by the page while the waiting ones are delivered
        else if (pl.own) { deliver(e); if (!now) t.count('client-plugin-early'); else t.count('after-start'); }
        else if (now) { deliver(e); t.count('after-start'); }
        else if (held && !launched) t.count('while-held'); else { wait.push(e); if (wait.length > CAP) { wait.shift(); t.count('overflow'); } t.count(inits ? 'while-starting' : 'before-initialize'); }
        try { q = pl.execute(ev); } catch (x) { t.violation('threw', det({ type, x: String(x) })); return; }
        const reuse = r.bool(0.15); q.then((x) => { t.check(x === ev && canon(clone(x)) === before, 'event-changed', det({ type, before, after: clone(x) })); if (reuse && x.event_properties && typeof x.event_properties === 'object') { t.count('properties-reused'); x.event_properties.n = 'later'; } /* the page goes on to use its object */ }, (x) => t.violation('rejected', det({ type, x: String(x?.stack ?? x) })));
      };
      const plugin = () => { const g = p.g.webExperiment; const own = !!client() && r.bool(0.3); const pl = own ? client().plugin() : g?.isStub && r.bool() ? g.plugin() : sut.createPlugin(); const x = { own, execute: (e) => pl.execute(e) }; plugins.push(x); return x; };
      const props = () => { const n = ++seq; return r.weighted([[6, { n }], [1, { n, list: [1, 2], deep: { a: null } }], [1, { n, event: 'T1', event_type: 'S1' }]]); };
      const burst = (k) => { const pl = plugins.length && r.bool(0.8) ? r.pick(plugins) : plugin(); const kind = r.pick(['S1', 'S2', 'X', null]); ops.push(['send', k, kind, pl.own ? 'own' : '']); for (; k-- > 0;) { const type = r.bool(0.04) ? r.pick(TR) : kind ?? r.pick(['S1', 'S2', 'X', 'X2']); if (r.bool(0.01)) { t.count('odd-event'); send(pl, r.pick(['', 'constructor', '__proto__', 7]), r.pick([undefined, null, {}, { n: null }])); } else send(pl, type, props()); } };
      const init = () => { inits++; if (inits > 1) t.count('second-initialize'); const required = hold && r.bool(inits > 1 ? 0.7 : 1); const cs = r.pick([undefined, 'pending', 'denied', 'granted']); ops.push(['init', required, cs]);
        const gated = required || held; const go = () => { launched = true; held = false; }; if (!launched) { if (gated) { armed = true; if (!explicit) status = cs ?? 'pending'; if (status === 'granted') go(); else { if (wait.length) t.count('dropped-by-hold'); held = true; wait = []; erase(); } } else go(); }
        sut.initialize(API, configs(p, { flags, pages, behaviors }), p.json({ ...(required || cs ? { consentOptions: { consentRequired: required, ...(cs ? { consentStatus: cs } : {}) } } : {}) })); if (client() && !client().hooked && launched) { client().hooked = true; if (r.bool(0.4)) { const q = sut.createPlugin(); const pl = { own: false, execute: (e) => q.execute(e) }; let left = r.int(1, 3); ops.push(['hook']); let seen = new Set(); client().addPageChangeSubscriber?.((e) => { const a = active(); const fresh = a.filter((x) => !seen.has(x)); seen = new Set(a); if (fresh.length && left-- > 0 && !busy) { busy = true; try { for (let k = r.int(1, 2); k-- > 0;) send(pl, r.pick(['S1', 'S2']), props()); } finally { busy = false; } } }); } } };
      const decide = (s) => { ops.push(['consent', s]); if (launched && s === 'denied') return; status = s; explicit = true; erase(); if (s === 'granted') { t.count('granted'); if (held && !launched) { launched = true; held = false; } } sut.setConsentStatus(s); };
      let n = r.int(3, 12); const at = r.int(0, 3);
      for (let i = 0; i < n; i++) {
        if (i === at) init(); else { const k = r.weighted([[5, 'send'], [2, 'burst'], [2, 'turns'], [2, 'time'], [0.7, 'init'], [hold ? 1.2 : 0, 'consent'], [1, 'plugin']]);
          if (k === 'send') burst(r.int(1, 4)); else if (k === 'burst') burst(r.pick([20, 120, 300, 520, 700])); else if (k === 'turns') for (let j = r.int(1, 10); j-- > 0;) await turn(); else if (k === 'time') await p.clock.advance(r.pick([0, 1, 10, 60, 400, 2500])); else if (k === 'init') { if (inits) init(); } else if (k === 'consent') decide(r.pick(['granted', 'granted', 'denied'])); else plugin(); }
        look('step'); if (r.bool(0.3)) await turn();
      }
      if (!inits) init(); if (hold && !launched && r.bool(0.7)) decide('granted'); for (let i = 0; i < 80 && launched && !client()?.isRunning; i++) { await p.clock.advance(50); await turn(); if (r.bool(0.05)) burst(1); look('wait'); }
      if (launched) { if (!t.check(client()?.isRunning, 'never-started', det())) return; } else t.count('never-granted'); look('started'); if (r.bool(0.7)) burst(r.pick([1, 5, 60])); look('after'); await p.clock.advance(700); look('end');
      const store = d.localFor(HOST).get(K10 + '_rtbt_events'); const list = store ? JSON.parse(store).events.map((e) => ({ type: e.event_type, n: e.properties.n })) : [];
      if (launched && status !== 'denied' && client()) { const want = got.slice(-CAP); const a = list.map((e) => e.type + e.n); const b = want.map((e) => e.type + e.n); const i = b.findIndex((x, k) => a[k] !== x); const sig = canon([...a].sort()) === canon([...b].sort()) ? 'order' : a.length > new Set(a).size ? 'twice' : b.some((x) => !a.includes(x)) ? 'lost' : 'not-to-be-delivered'; t.check(canon(a) === canon(b), sig, det({ at: i, got: a.slice(Math.max(0, i - 3), i + 5), want: b.slice(Math.max(0, i - 3), i + 5), lengths: [a.length, b.length] }));
        if (shape !== 'editor') { const bt = clone(client().getExperimentClient().getUser()?.behavioral_targeting ?? []); const wantB = [['b1', 'S1'], ['b2', 'S2']].filter(([, s]) => { const last = got.map((e) => e.type).lastIndexOf(s); return got.slice(Math.max(0, last + 1 - CAP), last + 1).filter((e) => e.type === s).length >= need[s]; /* evaluated with each event of its type */ }).map(([x]) => x); t.equal([...bt].sort(), wantB, 'behaviors', det({ need })); if (wantB.length) t.count('behavior-reached'); } }
      t.evaluated(canon([ops, got.length, [...fired].sort(), shape])); p.close();
    } },
  ],
};
