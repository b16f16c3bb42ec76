import { Device } from '../lib/env.mjs';
import { canon, clone, turn } from '../lib/util.mjs';
import { TAG, tagPage, recorder, flag, page, url as urlIs, configs, API } from '../lib/tag.mjs';
const HOST = 'https://www.example.com'; const PATHS = ['/', '/shop', '/shop?p=2', '/cart', '/shop#x'];
const GARBAGE = ['', 'null', 'undefined', 'true', '0', '5', '"x"', '[]', '{}', '[null]', '[1,2]', '{"a":', 'NaN', '%E0%A4%A', '{"web_exp_id":5}', '{"first_seen":{}}', '[object Object]', '{"__proto__":null}', '{"events":null}', '{"events":[null]}', '\u0000', 'x'.repeat(300), '{"user_id":[]}', '{"flags":5}', '"\\ud800"', '{"null":null}', '{"x":{"y":null}}', '{"f1":null}', '{"f1":5,"f2":"x"}', '{"f1":{"redirectUrl":5}}', '{"f1":{"redirectUrl":"https://www.example.com/shop","variantKey":null}}', '{"f1":{"from":"x","target":5}}', '{"f1":[null]}', '["f1",null]', '{"events":[null,5,{"event_type":"Buy"}],"nextId":1}', '{"events":[{"event_type":"Buy","timestamp":"x","properties":5,"session_id":null}],"nextId":2}', '{"events":[{"event_type":5,"timestamp":null,"properties":null}],"nextId":null}', '{"events":{},"nextId":1}', '{"events":[[]],"nextId":1e999}', '{"sessionId":5,"lastEventTime":"x"}', '{"utm_source":5}', '{"web_exp_id":null,"web_exp_id_v2":{}}', '{"f1":{"key":null}}', '{"previewFlags":null}'];
/** Shapes that resemble what is stored under a key, but are not it. */
const LIKE = [
  [/rtbt_events$/, 'local', ['{"events":null,"nextId":1}', '{"events":{},"nextId":1}', '{"events":"x","nextId":1}', '{"events":[null,5,{}],"nextId":1}', '{"events":[{"event_type":"Buy","timestamp":"x","properties":5,"session_id":null}],"nextId":2}', '{"events":[{"event_type":5,"timestamp":null,"properties":null}],"nextId":3}', '{"events":[[]],"nextId":"x"}', '{"nextId":1}', '[]', '{"events":[{"uuid":5,"event_type":"Buy","timestamp":1e999}],"nextId":-1}']],
  [/_REDIRECT$/, 'session', ['{"f1":null}', '{"f1":5}', '{"f1":{}}', '["f1"]', '"f1"', '{"f1":{"redirectUrl":"x","variantKey":null}}', '{"f1":{"redirectUrl":null,"variantKey":5,"metadata":5,"expKey":{}}}']],
  [/REDIRECT_MARKER$/, 'session', ['{"f1":null}', '{"f1":5}', '{"f1":{}}', '["f1"]', '{"f1":{"from":5,"target":null}}', '{"f1":{"from":"https://www.example.com/","target":"x","distinguishingParams":null}}']],
  [/REDIRECT_SUPPRESSED$/, 'session', ['{"f1":1}', '5', '[null]', '[["f1"]]', '"f1"']],
  [/unsent_/, 'local', ['[null]', '[5]', '{"0":{}}', '"x"', '[[]]', '5']], [/sent_v3_/, 'session', ['[null]', '{"f1":{}}', '{"f1":5}', '5', '[[1]]']],
  [/DEFAULT_USER_PROVIDER$/, 'local', ['null', '5', '"x"', '[]', '{"first_seen":{}}', '{"first_seen":null}']], [/DEFAULT_USER_PROVIDER$/, 'session', ['null', '5', '[]', '{"landing_url":{}}']],
  [/_identity$/, 'local', ['null', '5', '[]', '{"user_id":{}}', '{"web_exp_id":5}']], [/^amp-exp-[^]*\w$/, 'local', ['null', '5', '[]', '{"f9":null}', '{"f9":5}', '{"f9":"x"}', '{"f9":{"key":5}}', '{"f9":{"value":{}}}']],
];
const ABSENT = [`EXP_${API.slice(0, 10)}_rtbt_events`, `EXP_${API.slice(0, 10)}_REDIRECT`, `EXP_${API.slice(0, 10)}_REDIRECT_MARKER`, `EXP_${API.slice(0, 10)}_REDIRECT_SUPPRESSED`, 'EXP_unsent_$default_instance', 'EXP_sent_v3_$default_instance', `EXP_${API.slice(0, 10)}_DEFAULT_USER_PROVIDER`];
let uncaught = [];
export default {
  property: 'C57', bundles: { tag: TAG }, onUnhandled: (t, e) => { uncaught.push(String(e?.stack || e).slice(0, 300)); },
  rule: 'every life of a page (several page loads of one device, navigations, triggers, events, elements, reverts and re-applications) runs twice: once undisturbed and once with faults: storage that refuses or fills up at random operations, refused cookies, stored values and cookies replaced by garbage between and during the visits, a network that fails, hangs or answers garbage, an integration whose functions throw, reject, hang or answer nonsense, a relay address that is none, subscribers and loggers that throw, missing browser features. The disturbed tag must start, show at every step what the undisturbed one shows of the flags that need no network, leave navigation to the page working, and no error of it may reach the page: nothing thrown by a call, an event, a timer or a promise. Non-trivial = distinct judged (fault, step, what is shown)',
  requires: ['odd-relay', 'storage-fault', 'storage-denied', 'quota', 'cookie-fault', 'cookie-throws', 'garbage-stored', 'garbage-alike', 'garbage-planted', 'garbage-while-running', 'network-error', 'network-hang', 'network-garbage', 'integration-fault', 'subscriber-throws', 'no-feature', 'later-visit', 'shown', 'navigated', 'remote', 'behaviors', 'holdout', 'not-initialized', 'cookie-garbage', 'redirects', 'redirected', 'sheets-missing', 'odd-address', 'odd-event', 'odd-message', 'plugin', 'consent-pending', 'denied', 'code:throws', 'code:throws-null', 'code:missing', 'code:not-function', 'code:bad-selector', 'code:bad-html', 'code:bad-redirect', 'code:bad-trigger', 'code:bad-action'],
  workloads: [{ name: 'disturbed', quick: 1200, thorough: 40000, async run(t) {
    const r = t.rng; const kinds = ['storage', 'cookie', 'garbage', 'network', 'integration', 'subscribers', 'features', 'events', 'messages', 'address', 'code', 'relay']; const on = new Set(r.subset(kinds, 0.35)); if (!on.size) on.add(r.pick(kinds));
    const keys = ['f1', 'f2', 'f3'].slice(0, r.int(1, 3)); const flags = []; const pages = {}; let seq = 0;
    for (const f of keys) {
      pages[f] = {}; for (let i = r.int(1, 2); i-- > 0;) { const type = r.weighted([[5, 'url_change'], [1.5, 'manual'], [1, 'analytics_event'], [1, 'element_appeared'], [0.5, 'time_on_page'], [0.5, 'exit_intent'], [0.5, 'user_interaction'], [0.5, 'scrolled_to']]); const id = f + 'p' + i; const value = { manual: { name: 'm1' }, analytics_event: [[{ selector: ['context', 'data', 'event'], op: 'is', values: ['Buy'] }]], element_appeared: { selector: '.ap' }, time_on_page: { durationMs: 1000 }, exit_intent: { minTimeMs: 0 }, user_interaction: { selector: '.cl', interactionType: 'click' }, scrolled_to: { mode: 'percent', percentage: 50 } }[type]; pages[f][id] = page(id, { type, value, conditions: r.bool(0.6) ? [[urlIs('contains', r.pick(['/shop', '/cart', 'example']))]] : undefined }); }
      const css = r.bool(0.4); const acts = [{ action: 'mutate', data: { mutations: [{ selector: '#s', action: 'set', attribute: 'html', value: 'v' + seq++ }] } }]; if (css) acts.push({ action: 'inject', data: { id: `aaaaaaaa-0000-4000-8000-00000000000${seq}`, css: `.c${seq}{color:red}` } });
      const remote = r.bool(0.2); if (remote) t.count('remote'); flags.push(flag(f, { mode: remote ? 'remote' : 'local', blocking: r.bool(), payloads: { treatment: acts }, metadata: r.bool() ? { experimentKey: 'e' } : {} }));
    }
    const redirects = r.bool(0.25); if (redirects) { t.count('redirects'); flags.push(flag('f4', { payloads: { treatment: [{ action: 'redirect', data: { url: HOST + '/target' } }] } })); pages.f4 = { q: page('q', { conditions: [[urlIs('contains', '/cart')]] }) }; }
    if (r.bool(0.2)) { t.count('holdout'); flags.unshift({ ...flag('holdout-1', { payloads: { treatment: undefined } }), metadata: { evaluationMode: 'local', flagType: 'holdout-group', deployed: true } }); }
    const behaviors = r.bool(0.3) ? { f1: { b1: [[{ condition: { type: 'behavior', event_type: 'Buy', op: 'greater or equal', value: 1, time_type: 'rolling', time_value: 1, interval: 'day' } }]], b2: [[{ condition: { type: 'behavior', event_type: 'Buy', op: 'less', value: 2, time_type: 'current_session', event_props: [{ selector: ['context', 'n'], op: 'is', values: ['1'] }] } }]] } } : undefined; if (behaviors) t.count('behaviors');
    const code = r.pick(['throws', 'throws-null', 'missing', 'not-function', 'bad-selector', 'bad-html', 'bad-redirect', 'bad-trigger', 'bad-action']); const BAD = { redirect: { action: 'redirect', data: { url: r.pick(['http://[', 'https://', '', undefined, null, 5, '/relative', 'www.example.com/shop']) } }, action: r.pick([{ action: 'unknown', data: {} }, { action: 'mutate', data: {} }, { action: 'mutate' }, { action: 'inject', data: {} }, { action: 'inject' }, { action: 'redirect' }]), trigger: r.pick([['element_appeared', { selector: '..' }], ['user_interaction', { selector: '>>', interactionType: 'click' }], ['element_visible', { selector: '::x(', visibilityRatio: 0 }], ['scrolled_to', { mode: 'element', selector: '[[' }], ['exit_intent', {}], ['time_on_page', {}], ['analytics_event', []], ['unknown', {}], ['element_appeared', {}], ['manual', {}]]) }; if (on.has('code')) { flags.push(flag('f5', { payloads: { treatment: [{ action: 'inject', data: { id: 'bbbbbbbb-0000-4000-8000-000000000001', js: 'x', ...(code === 'bad-html' ? { html: '<' } : {}) } }, { action: 'mutate', data: { mutations: [{ selector: '#s', action: 'set', attribute: 'html', value: 'f5' }] } }] } })); pages.f5 = { z: page('z') }; if (r.bool()) { const f = flags.pop(); flags.unshift(f); } }
    const local = flags.filter((f) => f.metadata.evaluationMode === 'local').map((f) => f.key); const own = new Set(); for (const f of flags) if (local.includes(f.key) && f.key !== 'f5') for (const v of Object.values(f.variants)) for (const a of v.payload ?? []) { if (a.action === 'mutate') own.add(a.data.mutations[0].value); else if (a.data.css) own.add(a.data.css); }
    const nv = r.int(1, 3); const fr = { seed: r.u32() };
    const visits = Array.from({ length: nv }, () => ({ u: r.pick(PATHS), ops: r.list(2, 7, () => [r.weighted([[4, 'nav'], [1.5, 'manual'], [1.5, 'event'], [1, 'element'], [1, 'time'], [1, 'click'], [1, 'leave'], [1, 'scroll'], [1, 'apply'], [0.6, 'revert'], [0.6, 'hide'], [0.5, 'variants'], [0.5, 'popstate'], [0.7, 'plugin'], [0.15, 'deny']]), r.pick(PATHS), r.bool()]) }));
    const consent = r.weighted([[4, null], [1, 'granted'], [1, 'pending']]); const config = { ...(consent ? { consentOptions: { consentRequired: true, consentStatus: consent } } : {}), ...(r.bool(0.3) ? { redirectConfig: { encodeRedirectInCookie: r.bool(), encodeRedirectInUrl: r.bool() } } : {}) }; const debug = r.bool(0.3); const hang = r.pick([50, 3000]);
    const { Rng } = await import('../lib/prng.mjs'); const ODD = ['AMP_REDIRECT=!!!', 'AMP_REDIRECT=bnVsbA==', 'AMP_REDIRECT=NQ==', 'AMP_REDIRECT=eyJmMSI6bnVsbH0=', 'AMP_REDIRECT=WzFd', 'utm_source=%E0%A4%A', 'gclid=%', 'utm_medium=', '=', '&&', 'amp_device_id=%00', 'x=%F0%9F', 'utm_campaign=' + 'y'.repeat(500)]; const bare = (u) => { const x = new URL(u); return x.origin + x.pathname + (x.searchParams.has('p') ? '?p=2' : '') + x.hash; };
    const live = async (bad) => {
      const R = new Rng('f' + fr.seed); const d = new Device({ seed: t.index }); const tab = d.tab(); const out = []; const errors = []; uncaught = []; const mode = R.pick(['deny', 'quota', 'flaky', 'flaky', 'late-deny']); let armed = false; const rate = R.pick([0.05, 0.3, 1]); const areas = R.pick([['local'], ['session'], ['local', 'session']]); const cmode = R.pick(['refuse', 'throw', 'flaky']);
      if (bad && on.has('storage')) d.storageFault = (e) => { if (!armed || !areas.includes(e.area)) return false; const hit = mode === 'deny' || mode === 'late-deny' ? true : mode === 'quota' ? e.op === 'set' : R.bool(rate); if (hit) { t.count('storage-fault'); t.count(mode === 'quota' ? 'quota' : 'storage-denied'); } return hit; };
      if (bad && on.has('cookie')) { if (cmode === 'refuse') { d.jar.refuse = () => { t.count('cookie-fault'); return true; }; } else d.cookieFault = () => { const hit = cmode === 'throw' || R.bool(rate); if (hit) { t.count('cookie-fault'); t.count('cookie-throws'); } return hit; }; }
      const spoil = (p, rateOf) => { for (const m of [p.localMap(), p.sessionMap()]) for (const k of [...m.keys()]) if (R.bool(rateOf)) { if (/PREVIEW|VISUAL|mobile/i.test(k)) continue; const like = LIKE.find(([re, , l]) => re.test(k) && l); m.set(k, like && R.bool(0.6) ? (t.count('garbage-alike'), R.pick(like[2])) : R.pick(GARBAGE)); t.count('garbage-stored'); } for (const [re, area, l] of LIKE) for (const k of ABSENT) { const m = area === 'local' ? p.localMap() : p.sessionMap(); if (re.test(k) && !m.has(k) && R.bool(rateOf / 3)) { m.set(k, R.pick(l)); t.count('garbage-planted'); } } for (const c of d.jar.cookies) if (R.bool(rateOf)) { c.value = R.pick(['', '%E0%A4%A', 'bnVsbA==', 'W10=', '!!!', 'eyJhIjo=', 'x', 'IjUi', 'e30=', 'MTI=']); t.count('cookie-garbage'); } };
      let n = 0; const served = flags.map((f) => ({ ...f, metadata: { ...f.metadata, evaluationMode: 'local' } }));
      for (const v of visits) {
        if (n++) t.count('later-visit'); const odd = bad && on.has('address') ? R.pick(ODD) : ''; if (odd) t.count('odd-address'); const [pathOnly, hashOnly] = v.u.split('#'); const p = tagPage(d, { url: HOST + pathOnly + (odd ? (pathOnly.includes('?') ? '&' : '?') + odd : '') + (hashOnly ? '#' + hashOnly : ''), referrer: odd ? R.pick(['', 'android-app://com.x', 'about:blank', 'https://[', 'x']) : undefined, tab, seed: t.index + ':' + n, html: '<!DOCTYPE html><html><head></head><body><div id="s">s</div><button class="cl">b</button></body></html>', fetch: (q) => { if (bad && on.has('network')) { const k = R.weighted([[2, 'error'], [1, 'hang'], [3, 'garbage'], [1, 'ok'], [1, 'status']]); if (k === 'error') { t.count('network-error'); return { error: 'down', delay: R.pick([0, 30]) }; } if (k === 'hang') { t.count('network-hang'); return { hang: true }; } if (k === 'garbage') { t.count('network-garbage'); return { status: 200, body: R.pick(['', '<html>', 'null', '[]', '[null]', '{"a":1}', '5', '[{}]', '"x"', '[{"key":5}]']), delay: 20 }; } if (k === 'status') return { status: R.pick([400, 429, 500, 503]), body: '', delay: 20 }; } return { status: 200, body: /flags/.test(q.url) ? served : {}, delay: 20 }; } });
        const w = p.dom.window; w.addEventListener('error', (e) => { errors.push('event: ' + String(e.error?.stack || e.message).slice(0, 300)); e.preventDefault?.(); }); const handle = (where, fn) => { try { return fn(); } catch (e) { errors.push(where + ': ' + String(e?.stack || e).slice(0, 300)); return undefined; } };
        recorder(p, { user: { user_id: 'u', device_id: 'd' } }); p.g.__domMutator = p.eval('({ live: new Map(), events: [], fail: null })'); const plug = p.g.experimentIntegration; const breaks = bad && on.has('code'); if (on.has('code')) { const gid = 'bbbbbbbb000040008000000000000001'; const fine = () => {}; if (!breaks) p.g[gid] = fine; else { t.count('code:' + code); if (code === 'throws') p.g[gid] = () => { throw new p.g.Error('injected'); }; else if (code === 'throws-null') p.g[gid] = () => { throw null; }; else if (code === 'not-function') p.g[gid] = 5; else if (code === 'bad-html') p.g[gid] = (html) => html.id; else if (code === 'bad-selector') { p.g[gid] = (html, utils) => { utils.waitForElement('..').catch(() => {}); }; p.g.__domMutator.fail = (spec) => spec.value === 'f5'; } } } if (debug) p.g.__AMP_DEBUG = true;
        if (bad && on.has('integration')) { const how = R.weighted([[2, 'getUser-odd'], [2, 'track-throws'], [2, 'setup-rejects'], [1, 'setup-hangs'], [1, 'no-setup'], [1, 'track-odd'], [0.7, 'track-false']]); t.count('integration-fault'); t.count('integration:' + how); const X = (k) => () => { throw new p.g.Error(k); }; if (how === 'getUser-odd') { const val = R.pick([{}, { user_properties: null }, { user_id: null, device_id: null }, { user_properties: { a: null, b: {}, c: [] } }, { user_id: 5 }, { user_id: '' }, { groups: null }]); plug.getUser = () => p.json(val); } else if (how === 'track-throws') plug.track = X('track'); else if (how === 'setup-rejects') plug.setup = () => p.g.Promise.reject(new p.g.Error('setup')); else if (how === 'setup-hangs') { if (!flags.some((f) => /holdout/.test(f.key) || f.metadata.evaluationMode === 'remote')) plug.setup = () => new p.g.Promise(() => {}); } else if (how === 'no-setup') delete plug.setup; else if (how === 'track-odd') plug.track = () => R.pick([null, undefined, 5, 'x']); else plug.track = () => false; }
        if (bad && on.has('features')) for (const k of R.subset(['requestIdleCallback', 'crypto.randomUUID', 'crypto', 'IntersectionObserver', 'sendBeacon', 'performance', 'BroadcastChannel', 'TextEncoder', 'structuredClone', 'sheets', 'matchMedia', 'frameElement'], 0.3)) { if (k === 'IntersectionObserver' && (on.has('code') && code === 'bad-trigger' || Object.values(pages).some((x) => Object.values(x).some((y) => /element_visible|scrolled/.test(y.trigger_type))))) continue; t.count('no-feature'); if (k === 'crypto.randomUUID') { if (p.g.crypto) delete p.g.crypto.randomUUID; } else if (k === 'sendBeacon') delete p.g.navigator.sendBeacon; else if (k === 'frameElement') Object.defineProperty(p.g, 'frameElement', { get: () => { throw new p.g.Error('cross origin'); }, configurable: true }); else if (k === 'sheets') { t.count('sheets-missing'); delete w.document.adoptedStyleSheets; p.g.CSSStyleSheet = undefined; } else delete p.g[k]; }
        if (bad && on.has('garbage') && R.bool(0.3)) spoil(p, 0.3); armed = mode !== 'late-deny' && R.bool(0.3); let sut; handle('load', () => { sut = p.load(t.sut.tag); }); let refused = false;
        if (sut) try { sut.initialize(API, configs(p, bad && on.has('code') ? { flags: clone(flags).map((f) => { const l = f.key === 'f5' && f.variants.treatment.payload; if (l && code === 'bad-redirect') l.unshift(BAD.redirect); if (l && code === 'bad-action') l.unshift(BAD.action); return f; }), pages: code === 'bad-trigger' ? { ...pages, f5: { z: page('z', { type: BAD.trigger[0], value: BAD.trigger[1] }) } } : pages, behaviors } : { flags, pages, behaviors }), p.json(bad && on.has('relay') ? (t.count(behaviors ? 'odd-relay' : 'odd-relay-unused'), { ...config, relayUrl: R.pick(['/relay.html', 'relay', 'https://', 'http://[', '//', 'about:blank', 'javascript:1', 'https://gone.example.org/relay.html']) }) : config)); } catch (e) { if (/could not be initialized/.test(e?.message) && bad && on.has('storage') && armed) { refused = true; t.count('not-initialized'); } else errors.push('initialize: ' + String(e?.stack || e).slice(0, 300)); }
        if (config.consentOptions?.consentStatus === 'pending' && sut && !refused) { await p.settle(100); t.count('consent-pending'); try { sut.setConsentStatus('granted'); } catch (e) { if (/could not be initialized/.test(e?.message) && bad && on.has('storage')) { refused = true; t.count('not-initialized'); } else errors.push('consent: ' + String(e?.stack || e).slice(0, 300)); } }
        armed = true; const c = p.g.webExperiment; if (refused) { await p.settle(2000); out.push({ refused: true }); armed = false; p.close(); if (errors.length) break; continue; }
        if (bad && on.has('subscribers') && c) { t.count('subscriber-throws'); handle('subscribe', () => { c.addPageChangeSubscriber?.(() => { throw new p.g.Error('page change subscriber'); }); }); handle('subscribe', () => { c.onDebugStateChange?.(() => { throw new p.g.Error('debug subscriber'); }); }); handle('subscribe', () => { p.g.webExperimentDebug?.subscribe?.(() => { throw new p.g.Error('debug'); }); }); }
        const show = (why) => { const shown = handle('shown', () => ({ m: [...p.g.__domMutator.live.values()].map((s) => s.value).filter((x) => own.has(x)).sort(), css: [...[...(w.document.adoptedStyleSheets ?? [])].map((s) => s.css), ...p.$$('style').map((s) => s.textContent)].filter((x) => own.has(x)).sort() })); out.push({ why, ...shown, at: bare(p.url.href), to: p.navigations.length }); };
        await p.settle(300); await p.settle(1700); if (!t.check(c?.isRunning, 'never-runs', () => ({ bad, on: [...on], mode, errors, uncaught, console: p.consoleLog.slice(-3).map((x) => x[1].map(String)) }))) { p.close(); return null; }
        await p.settle(100); show('start'); const hidden = [...(w.document.adoptedStyleSheets ?? [])].filter((s) => /opacity|visibility/.test(s.css)).length + p.$$('#amp-exp-css, style').filter((s) => s.id || /visibility/.test(s.textContent)).length; t.check(!hidden || p.navigations.length, 'page-left-hidden', () => ({ bad, on: [...on] }));
        for (const [k, u, b] of v.ops) {
          if (bad && on.has('messages') && R.bool(0.5)) { t.count('odd-message'); const data = R.pick([null, undefined, 5, 'x', '{', [], {}, { type: null }, { type: 5 }, { type: 'OpenOverlay' }, { type: 'RELAY_READY' }, { type: 'RELAY_RESPONSE' }, { type: 'RELAY_RESPONSE', requestId: null, ok: true }, { type: 'opener-ready' }, { data: { type: {} } }]); handle('message', () => p.win.dispatch('message', { type: 'message', data: p.json(data ?? null), origin: R.pick([HOST, 'https://evil.com', 'https://app.amplitude.com.evil.com', 'null', '', 'https://cdn.amplitude.com']), source: R.pick([null, p.g]), ports: [] })); }
          if (bad && on.has('garbage') && R.bool(0.15)) { spoil(p, 0.3); t.count('garbage-while-running'); }
          if (k === 'nav') { if (HOST + u !== bare(p.url.href)) { handle('pushState', () => p.g.history[b ? 'pushState' : 'replaceState']({}, '', u)); t.check(p.url.href === HOST + u, 'navigation-broken', () => ({ u, at: p.url.href })); if (bad) t.count('navigated'); } }
          else if (k === 'popstate') { if (p.histIdx > 0) handle('back', () => p.go(-1)); }
          else if (k === 'manual') handle('toggle', () => c.toggleManualPageObject('m1', b)); else if (k === 'event' || k === 'plugin') {
            let props = p.json({ n: 1 }); if (bad && on.has('events')) { t.count('odd-event'); const how = R.pick(['circular', 'bigint', 'getter', 'undefined', 'null', 'function', 'huge']); if (how === 'circular') props.self = props; else if (how === 'bigint') props.b = 5n; else if (how === 'getter') Object.defineProperty(props, 'g', { enumerable: true, get() { throw new p.g.Error('getter'); } }); else if (how === 'undefined') props = undefined; else if (how === 'null') props = null; else if (how === 'function') props.f = () => 1; else props.h = 'x'.repeat(200000); }
            if (k === 'event') handle('trackEvent', () => c.trackEvent('Buy', props)); else { t.count('plugin'); const ev = p.json({ event_type: 'Buy' }); ev.event_properties = props; const res = await Promise.race([handle('plugin', () => c.plugin().execute(ev))?.then?.((x) => x, (e) => { errors.push('plugin: ' + String(e?.stack || e).slice(0, 300)); return ev; }), new Promise((z) => { setTimeout(() => z('slow'), 3000).unref?.(); })]); t.check(res === ev, 'plugin-holds-event', () => ({ res: String(res), bad, on: [...on] })); }
          } else if (k === 'deny') { if (consent) { t.count('denied'); handle('deny', () => sut.setConsentStatus('denied')); } }
          else if (k === 'element') { const e = w.document.createElement('i'); e.className = 'ap'; handle('append', () => w.document.body.appendChild(e)); await turn(); } else if (k === 'time') await p.settle(1100);
          else if (k === 'click') handle('click', () => p.fire(p.$('.cl'), 'click')); else if (k === 'leave') handle('leave', () => p.fire(w.document.body, 'mouseout', { clientY: -1, relatedTarget: null })); else if (k === 'scroll') handle('scroll', () => p.scrollTo(b ? 3000 : 100)); else if (k === 'hide') { handle('hide', () => p.hide(true)); handle('hide', () => p.hide(false)); }
          else if (k === 'apply') handle('apply', () => { c.applyVariants(); }); else if (k === 'revert') { handle('revert', () => c.revertVariants()); show('revert'); handle('apply', () => { c.applyVariants(); }); } else if (k === 'variants') { const vs = handle('getVariants', () => c.getVariants()); out.push({ why: 'variants', vs: vs ? Object.fromEntries(Object.entries(vs).filter(([f]) => local.includes(f) && f !== 'f5').map(([f, x]) => [f, x.key])) : null, pages: handle('getActivePages', () => canon(Object.fromEntries(Object.entries(c.getActivePages() ?? {}).filter(([f]) => f !== 'f5')))) }); }
          await p.settle(120); show(k);
        }
        await p.settle(hang); show('end'); handle('pagehide', () => p.win.dispatch('pagehide', { type: 'pagehide' })); for (const e of p.timerErrors) errors.push('timer: ' + String(e?.stack || e).slice(0, 300)); armed = false; if (bad && on.has('garbage')) spoil(p, R.pick([0.3, 1])); p.close();
      }
      await turn(); await turn(); return { out, errors, uncaught: [...uncaught], mode };
    };
    const a = await live(false); const b = a && await live(true); if (!b) return;
    const about = () => ({ on: [...on], mode: b.mode, visits, config, behaviors: !!behaviors });
    for (const [x, w] of [[a, 'undisturbed'], [b, 'disturbed']]) { t.check(!x.errors.length, 'error-reaches-page', () => ({ w, errors: x.errors.slice(0, 3), ...about() })); t.check(!x.uncaught.length, 'rejection-reaches-page', () => ({ w, errors: x.uncaught.slice(0, 3), ...about() })); }
    let went = false; for (const l of [a.out, b.out]) { went = false; for (const x of l) { if (went) delete x.to; else if (x.to) { went = true; if (l === b.out) t.count('redirected'); } } }
    let i = 0; for (const x of b.out) { const y = a.out[i]; if (x.refused) { const at = y; void at; return; } i++; t.equal(x, y, 'shown-differs', () => ({ i, ...about() })); if (x.m?.length || x.css?.length) t.count('shown'); t.evaluated(canon([[...on], x])); }
  } }],
};
