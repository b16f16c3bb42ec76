import { Device } from '../lib/env.mjs';
import { canon, clone, turn } from '../lib/util.mjs';
import { TAG, API, K10, tagPage, configs, flag, page, url, recorder } from '../lib/tag.mjs';
const HOST = 'https://www.example.com'; const MARK = K10 + '_erased';
const ENTRY = TAG;
const hidden = (p) => [...p.dom.window.document.adoptedStyleSheets].some((s) => /visibility:\s*hidden/.test(s.css));
/** What an earlier, consented visit and others have left. */
function prior(r, d, tab) {
  const ls = d.localFor(HOST); const ss = tab.sessionFor(HOST); const put = (m, k, v) => { if (r.bool(0.6)) m.set(k, v); };
  put(ls, K10, JSON.stringify({ web_exp_id: 'old-w', web_exp_id_v2: 'old-v' })); put(ls, K10 + '_DEFAULT_USER_PROVIDER', JSON.stringify({ first_seen: '1600000000' })); put(ls, K10 + '_rtbt_events', JSON.stringify({ events: [{ id: 0, event_type: 'Old', timestamp: d.clock.now - 1000, session_id: 1, properties: {} }], nextId: 1 }));
  put(ls, 'EXP_MKTG_' + API.slice(0, 10), JSON.stringify({ utm_source: 'old' })); put(ls, 'EXP_unsent_$default_instance', '[]'); put(ls, 'app', 'x'); put(ss, K10 + '_REDIRECT', JSON.stringify({ f: { redirectUrl: HOST + '/', variant: { key: 'A' } } })); put(ss, 'amp-preview-mode', JSON.stringify({ previewFlags: { inj: 'treatment' } })); put(ss, K10 + '_REDIRECT_MARKER', '{}');
  if (r.bool(0.5)) d.jar.set('www.example.com', K10 + '_identity=abc; domain=.example.com; path=/; max-age=9999999'); if (r.bool(0.3)) d.jar.set('www.example.com', 'app=1; path=/'); if (r.bool(0.2)) d.jar.set('www.example.com', MARK + '=1; domain=.example.com; path=/; max-age=9999999');
}
export default {
  property: 'C30', bundles: { tag: ENTRY },
  rule: 'lives: a page that requires consent (by build or window configuration, or both) is loaded at plain, preview, editor, redirected and campaign addresses over whatever earlier visits left, with flags of every kind, events through the plugin, navigations, interaction, messages and time, and random initialize calls and decisions; a monitor over the log of every storage, cookie, network, style and element operation allows nothing before the grant except the erasure a refusal asks for. Once granted, the tag must start once whatever else is decided or initialized: one run of an injection, one impression, one set of requests, one client; and nothing tracked before the grant may reach triggers or behaviors. Non-trivial = distinct (history, outcome).',
  requires: ['pending', 'denied', 'granted', 'granted-at-init', 'granted-before-init', 'never-granted', 'twice-initialized', 'relaxed-initialize', 'repeated-grant', 'denied-then-granted', 'window-config', 'preview-url', 'editor-url', 'extension', 'prior-data', 'early-events', 'late-events', 'remote', 'invalid-status', 'ungated', 'started-once', 'nothing-touched'],
  workloads: [
    { name: 'lives', quick: 1500, thorough: 60000, async run(t) {
      const r = t.rng; const d = new Device({ seed: t.index }); const tab = d.tab(); const had = r.bool(0.6); if (had) { prior(r, d, tab); t.count('prior-data'); }
      const shape = r.weighted([[5, 'plain'], [1, 'preview-url'], [0.7, 'editor-url'], [1, 'campaign'], [1, 'redirected'], [0.7, 'extension']]); if (shape !== 'plain') t.count(shape);
      const q = { 'preview-url': '?PREVIEW=true&inj=treatment', 'editor-url': '?VISUAL_EDITOR=true', campaign: '?utm_source=ads&gclid=1', redirected: '?AMP_REDIRECT=' + encodeURIComponent(Buffer.from('{}').toString('base64')) }[shape] ?? '';
      const remote = r.bool(0.5); const inject = { action: 'inject', data: { id: 'aaaaaaaa-0000-4000-8000-000000000001', html: '<b>x</b>', css: '.x{}', js: 'return 1;' } };
      const mkFlags = (tag) => [flag('inj', { payloads: { treatment: [inject] }, metadata: { experimentKey: tag } }), flag('ev', { payloads: { treatment: [] } }), ...(remote ? [flag('rem', { mode: 'remote', payloads: { treatment: [{ action: 'mutate', data: { mutations: [{ selector: 'body', action: 'set', attribute: 'class', value: 'm' }] } }] } })] : [])];
      const pages = { inj: { p1: page('p1') }, ev: { p2: page('p2', { type: 'analytics_event', value: [[{ selector: ['context', 'data', 'event'], op: 'is', values: ['Early'] }]] }), p4: page('p4', { type: 'analytics_event', value: [[{ selector: ['context', 'data', 'event'], op: 'is', values: ['Late'] }]] }) }, ...(remote ? { rem: { p3: page('p3') } } : {}) };
      const behaviors = { inj: { b1: [[{ condition: { type: 'behavior', event_type: 'Early', op: 'greater or equal', value: 1, time_type: 'rolling', time_value: 1, interval: 'day' } }]], b2: [[{ condition: { type: 'behavior', event_type: 'Late', op: 'greater or equal', value: 1, time_type: 'rolling', time_value: 1, interval: 'day' } }]] } };
      const p = tagPage(d, { url: HOST + '/' + q, tab, seed: t.index, fetch: (x) => (/configs/.test(x.url) ? { status: r.bool(0.7) ? 200 : 500, body: { flags: mkFlags('A'), pageObjects: pages, behavioralTargetingRules: behaviors }, delay: 50 } : /flags/.test(x.url) ? { status: 200, body: mkFlags('A').map((f) => ({ ...f, metadata: { ...f.metadata, evaluationMode: 'local' } })), delay: 50 } : { status: 200, body: '{}', delay: 5 }) });
      if (shape === 'extension') p.g.WebExperiment = p.json({ injectedByExtension: true }); if (r.bool(0.4)) p.g.opener = r.bool() ? p.g : null;
      let ran = 0; p.g.aaaaaaaa000040008000000000000001 = () => { ran++; }; const got = recorder(p, { user: { user_id: 'u' } });
      const appended = []; new p.dom.window.MutationObserver((l) => l.forEach((m) => m.addedNodes.forEach((n) => appended.push(n.outerHTML || n.nodeName)))).observe(p.dom.window.document, { childList: true, subtree: true });
      // what the page requires, and when the grant came
      let gated = r.bool(0.92); if (!gated) t.count('ungated'); let status = 'pending'; let explicit = false; let deferred = false; let started = null; let mark = 0; const ops = []; let early = 0; let late = 0; let inits = 0; let grants = 0; const clients = new Set(); let sees = []; let erased = false; const plugins = [];
      const before = canon([[...d.localFor(HOST)], [...tab.sessionFor(HOST)], d.jar.dump()]);
      const win = gated && r.bool(0.3) ? (r.bool() ? { consentRequired: true } : { consentStatus: r.pick(['pending', 'pending', 'denied', 'granted', 'yes']) }) : null; if (win) { p.g.experimentConfig = p.json({ consentOptions: win }); t.count('window-config'); }
      const build = gated ? { consentRequired: true, ...(r.bool(0.4) ? { consentStatus: r.pick(['pending', 'denied', 'granted', 'granted', 'GRANTED']) } : {}) } : r.pick([undefined, {}, { consentRequired: false, consentStatus: 'denied' }]); if (win?.consentRequired && r.bool()) delete build.consentRequired;
      const cfgStatus = win?.consentStatus ?? build?.consentStatus; if (['yes', 'GRANTED'].includes(cfgStatus)) t.count('invalid-status');
      const sut = p.load(t.sut.tag); const det = (e) => ({ e, ops, shape, build, win, status, started: !!started, console: p.consoleLog.slice(0, 3) });
      const sweepOk = (e) => (e.type === 'storage' ? e.op === 'remove' : e.type === 'cookie' ? e.op === 'get' || /expires=Thu, 01 Jan 1970/.test(e.value) || (e.key === MARK && e.value.startsWith(MARK + '=1;')) : false);
      const look = () => { // everything since the last look happened without consent
        for (; mark < p.log.length; mark++) { const e = p.log[mark]; if (!['storage', 'cookie', 'fetch', 'sheets', 'navigate'].includes(e.type) || e.op === 'access') continue; if (erased && sweepOk(e)) continue; t.violation(e.type === 'fetch' ? 'request-without-consent' : e.type === 'storage' ? (e.op === 'get' ? 'read-without-consent' : 'write-without-consent') : e.type === 'cookie' ? 'cookie-without-consent' : 'effect-without-consent', det({ type: e.type, op: e.op, key: e.key, url: e.url, value: e.value, css: e.css })); }
        t.check(p.requests.length === 0, 'request-without-consent', det(p.requests[0])); t.check(ran === 0 && got.length === 0 && appended.length === 0 && !hidden(p), 'effect-without-consent', det({ ran, got: got.length, appended, hidden: hidden(p) })); t.check(p.g.webExperiment === undefined || p.g.webExperiment.isStub === true, 'client-without-consent', det());
        if (!erased) { t.equal(canon([[...d.localFor(HOST)], [...tab.sessionFor(HOST)], d.jar.dump()]), before, 'device-changed', det()); t.count('nothing-touched'); }
      };
      const pre = () => { if (started) return; look(); }; // call before anything that may grant
      const start = (how) => { started = { how, at: d.clock.now }; t.count('granted'); if (how !== 'late') t.count(how); };
      const decide = (s) => { pre(); ops.push(s); const was = status; if (['pending', 'granted', 'denied'].includes(s)) { explicit = true; if (s !== 'pending') status = s; } else t.count('invalid-status'); if (s === 'granted') { if (++grants > 1) t.count('repeated-grant'); if (was === 'denied') t.count('denied-then-granted'); } if (status === 'denied' && inits && gated && !started) { erased = true; t.count('denied'); } if (status === 'granted' && deferred && !started) { deferred = false; start('late'); } const f = p.g.webExperiment?.setConsentStatus && r.bool() ? p.g.webExperiment.setConsentStatus.bind(p.g.webExperiment) : sut.setConsentStatus; f(s); };
      const init = () => { pre(); inits++; if (inits > 1) t.count('twice-initialized'); let co = build; if (inits > 1 && r.bool(0.4)) { co = { consentRequired: false }; t.count('relaxed-initialize'); } ops.push('init' + (co === build ? '' : '-relaxed')); const required = { ...co, ...win }.consentRequired || deferred;
        if (!started) { if (required) { gated = true; const c = win?.consentStatus ?? co?.consentStatus; if (!explicit && ['granted', 'denied'].includes(c) && status === 'pending') status = c; else if (!explicit && ['granted', 'denied'].includes(c)) status = c; if (status === 'denied') { erased = true; t.count('denied'); } if (status === 'granted') { deferred = false; start(explicit ? 'granted-before-init' : 'granted-at-init'); } else { deferred = true; t.count('pending'); } } else start('ungated'); }
        sut.initialize(API, configs(p, { flags: mkFlags('I' + inits), pages, behaviors }), p.json(co ? { consentOptions: co } : {})); };
      const track = (name) => { if (!plugins.length) plugins.push(p.g.webExperiment?.plugin && r.bool() ? p.g.webExperiment.plugin() : sut.createPlugin()); if (r.bool(0.1)) plugins.push(sut.createPlugin()); r.pick(plugins).execute(p.json({ event_type: name, event_properties: { n: 1 } })); };
      const other = async () => { const k = r.pick(['time', 'time', 'event', 'event', 'nav', 'click', 'hide', 'message', 'unload']); ops.push(k);
        if (k === 'time') await p.settle(r.pick([1, 50, 600, 1100, 5000, 2000000])); else if (k === 'event') { track(started ? 'Late' : 'Early'); if (started) { late++; t.count('late-events'); } else { early++; t.count('early-events'); } } else if (k === 'nav') p.g.history.pushState({}, '', '/p' + r.int(1, 3) + (r.bool(0.2) ? '?PREVIEW=true&inj=treatment' : '')); else if (k === 'click') { p.fire(p.dom.window.document.body, 'click'); p.win.dispatch('pointerdown', { type: 'pointerdown' }); } else if (k === 'hide') { p.hide(true); p.hide(false); } else if (k === 'message') p.win.dispatch('message', { type: 'message', origin: 'https://app.amplitude.com', source: p.g.opener, data: p.json({ type: 'OpenOverlay', context: { scriptUrl: 'https://app.amplitude.com/overlay.js' } }) }); else p.win.dispatch('pagehide', { type: 'pagehide' }); await turn(); };
      const grantEver = r.bool(0.8); const n = r.int(2, 9); const preStatus = r.bool(0.12); if (preStatus) decide(grantEver ? r.pick(['granted', 'granted', 'denied', 'pending']) : r.pick(['denied', 'pending', 'bogus'])); if (r.bool(0.2)) { await other(); pre(); }
      init(); await turn(); pre();
      for (let i = 0; i < n && !started; i++) { const k = r.weighted([[4, 'other'], [0.8, 'init'], [1, 'bad'], [0.8, 'denied'], [grantEver ? 1.2 : 0, 'granted']]); if (k === 'other') await other(); else if (k === 'init') init(); else if (k === 'bad') decide(r.pick(['pending', 'bogus', '', undefined, 'Granted'])); else decide(k); await turn(); pre(); }
      if (grantEver && !started) decide('granted');
      if (!started) { await p.settle(r.pick([100, 5000])); pre(); t.count('never-granted'); t.evaluated(canon([shape, ops, status])); p.close(); return; }
      // once started: more signals and calls change nothing
      clients.add(p.g.webExperiment);
      for (let i = r.int(0, 5); i-- > 0;) { const k = r.weighted([[2, 'time'], [1.5, 'init'], [1.5, 'granted'], [1, 'event']]); if (k === 'time') await p.settle(r.pick([1, 30, 300])); else if (k === 'init') init(); else if (k === 'granted') decide('granted'); else { ops.push('late'); track('Late'); late++; t.count('late-events'); } await turn(); if (p.g.webExperiment && !p.g.webExperiment.isStub) clients.add(p.g.webExperiment); }
      for (let i = 0; i < 60 && !p.g.webExperiment?.isRunning; i++) await p.settle(50); await p.settle(1500); if (p.g.webExperiment && !p.g.webExperiment.isStub) clients.add(p.g.webExperiment);
      const c = p.g.webExperiment; t.check(c && !c.isStub && c.isRunning, 'not-started', det()); clients.delete(undefined); t.check([...clients].filter((x) => !x.isStub).length === 1, 'several-clients', det());
      const flagsReq = p.requests.filter((x) => /\/flags/.test(x.url)).length; const cfgReq = p.requests.filter((x) => /configs/.test(x.url)).length; const previewing = c.isPreviewMode; const navs = ops.includes('nav');
      t.check(flagsReq <= 1 && cfgReq <= 1, 'started-twice', det({ flagsReq, cfgReq })); if (shape !== 'editor-url') { t.check(previewing ? ran >= 1 : ran === 1, ran ? 'started-twice' : 'not-applied', det({ ran, previewing })); /* a preview applies its variant anew */ const imp = got.filter((e) => e.type === '$impression' && e.props.flag_key === 'inj'); t.check(imp.length === 1, imp.length ? 'started-twice' : 'no-impression', det({ imp })); if (remote) { t.count('remote'); } t.count('started-once'); }
      // nothing tracked before the grant reaches anything
      const act = c.getActivePages(); const mine = started.how !== 'late'; const events = JSON.parse(d.localFor(HOST).get(K10 + '_rtbt_events') || '{"events":[]}').events; const e1 = events.filter((e) => e.event_type === 'Early').length; const e2 = events.filter((e) => e.event_type === 'Late').length;
      if (!mine) { t.check(!act.ev?.p2 && e1 === 0, 'early-event-replayed', det({ act: Object.keys(act.ev ?? {}), e1 })); } if (!(win?.consentStatus || status === 'denied')) { if (late && shape !== 'editor-url' && !previewing) t.check(e2 === late, 'late-event-lost', det({ e2, late })); if (late && shape !== 'editor-url') t.check(!!act.ev?.p4, 'late-event-lost', det({ act: Object.keys(act.ev ?? {}) })); }
      t.evaluated(canon([shape, ops, started.how, clone(flagsReq)])); p.close();
    } },
  ],
};
