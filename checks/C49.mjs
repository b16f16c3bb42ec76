import { Device } from '../lib/env.mjs';
import { canon, turn } from '../lib/util.mjs';
const ENTRY = `export * from '@src/tag/util/messenger'; export * from '@src/tag/consent/consent-gate'; export { DebugRecorder } from '@src/tag/util/debug-recorder';`;
const GOODH = ['app.amplitude.com', 'a.b.amplitude.com', 'APP.Amplitude.COM', 'cdn.amplitude.com', 'app.eu.amplitude.com', 'x-1.amplitude.com'];
const BADH = ['amplitude.com', 'evilamplitude.com', 'amplitude.com.evil.com', 'app.amplitude.com.evil.com', 'evil.com', 'app.amplitude.co', 'app-amplitude.com', 'app.amplitude.comm', 'app.amplitude.com.', 'amplitude.com.', 'localhost', '127.0.0.1', 'xn--mplitude-c1a.com', 'www.amplitudeXcom', 'app.amplitudexcom', '[::1]', 'amplitude.org'];
const isAmp = (h) => { const l = h.toLowerCase().split('.'); return l.length >= 3 && l[l.length - 1] === 'com' && l[l.length - 2] === 'amplitude'; };
const parse = (s) => { try { return new URL(s); } catch { return null; } };
const origin = (r) => r.weighted([[6, () => `${r.pick(['https', 'https', 'http'])}://${r.pick(GOODH)}${r.bool(0.2) ? ':8443' : ''}`], [5, () => `https://${r.pick(BADH)}`], [1, () => r.pick(['', 'null', undefined, null, 5, 'app.amplitude.com', '//app.amplitude.com', 'https://evil.com/.amplitude.com', 'https://evil.com#.amplitude.com', 'https://evil.com?x.amplitude.com', 'https://app.amplitude.com@evil.com', 'https://app.amplitude.com\\@evil.com', 'https://evil.com\n.amplitude.com', 'file://', 'about:blank', 'chrome-extension://abc', 'https://evil.com/https://app.amplitude.com'])]])();
const src = (r) => r.weighted([[6, () => `https://${r.pick(GOODH)}/script/overlay.js${r.bool(0.3) ? '?v=1#x' : ''}`], [3, () => `https://${r.pick(BADH)}/overlay.js`], [2, () => r.pick(['http://app.amplitude.com/o.js', 'javascript:alert(1)//.amplitude.com', 'data:text/javascript,1//app.amplitude.com', 'blob:https://app.amplitude.com/1', '//app.amplitude.com/o.js', '/o.js', 'o.js', '', 'https://app.amplitude.com@evil.com/o.js', 'https://app.amplitude.com\\@evil.com', 'https://evil.com\\.amplitude.com/o.js', 'https://evil.com/.amplitude.com', 'https://evil.com?a=.amplitude.com', 'https://evil.com#.amplitude.com', ' https://app.amplitude.com/o.js ', 'HTTPS://app.amplitude.com/o.js', 'ws://app.amplitude.com', 'ftp://app.amplitude.com/o.js', 'https:app.amplitude.com', 'https://', 'not a url', 'https://evil.com:443.amplitude.com/'])], [1, () => r.pick([null, undefined, 5, {}, [], ['https://app.amplitude.com/o.js'], true])]])();
export default {
  property: 'C49', bundles: { tag: ENTRY },
  rule: 'overlay: random histories of window messages (origins and script addresses of look-alike hosts, other schemes, credentials, backslashes, fragments; malformed and hostile payloads), stored editor sessions, script loads that succeed, fail or hang, and late bodies. A monitor on every element added to the document judges that a script appears only for an acceptable message or session and with exactly that address as a browser would resolve it, that at most one overlay is being loaded or open, that an acceptable message is answered when none is, that a failed load can be retried and clears the indicator, and that nothing throws. Non-trivial = distinct judged message or session.',
  requires: ['loaded', 'origin-rejected', 'src-rejected', 'busy-rejected', 'other-type', 'malformed', 'retry-after-failure', 'session-loaded', 'session-rejected', 'session-blocks-messages', 'late-body', 'hang', 'nonce', 'indicator-cleared', 'indicator-timeout', 'cookie-denied-storage'],
  workloads: [{ name: 'overlay', quick: 5000, thorough: 300000, async run(t) {
    const r = t.rng; const d = new Device({ seed: t.index }); const p = d.page({ url: 'https://www.customer.com/page?x=1', seed: t.index }); const doc = p.g.document; const body = doc.body; const ops = []; const tag = r.bool(0.3); if (tag) p.nonce = { nonce: 'n0', getAttribute: () => 'n0' }; const late = r.bool(0.15); if (late) { doc.body = null; t.count('late-body'); }
    const sut = p.load(t.sut.tag); if (r.bool(0.2)) { p.g.__AMP_DEBUG = true; sut.DebugRecorder.init(p.g); } if (r.bool(0.1)) { sut.consentGate.required = true; }
    const scripts = () => p.log.filter((e) => e.type === 'append' && e.tag === 'SCRIPT'); let session = null, sessOk = false; let raw = null;
    if (r.bool(0.4)) { session = r.weighted([[5, () => ({ injectSrc: src(r), amplitudeWindowUrl: 'https://app.amplitude.com' })], [1, () => r.pick([null, 5, 'x', [], {}, true, { injectSrc: null }])]])(); raw = r.bool(0.1) ? r.pick(['{', '', 'undefined', '{"injectSrc":']) : JSON.stringify(session); const key = p.sessionMap(); key.set(sut.VISUAL_EDITOR_SESSION_KEY, raw); }
    if (r.bool(0.1)) { t.count('cookie-denied-storage'); d.storageFault = () => true; raw = null; }
    const ok = (s) => { const u = parse(s); return !!u && u.protocol === 'https:' && isAmp(u.hostname); }; { let v = null; try { v = raw ? JSON.parse(raw) : null; } catch { v = null; } sessOk = !!v && typeof v === 'object' && v.injectSrc !== undefined && ok(v.injectSrc); session = v; }
    let state = 'closed'; let expected = []; let cur = null; let failed = false;
    const audit = (why) => { const s = scripts(); const want = doc.body === null ? expected.slice(0, expected.length - (state === 'waiting' ? 1 : 0)) : expected; if (!t.check(s.length === want.length, s.length > want.length ? 'script-loaded-wrongly' : 'acceptable-not-loaded', { why, got: s.map((e) => e.node.src), want, ops: ops.slice(-4) })) return false; for (const e of s) { const u = parse(String(e.node.src)) && new URL(String(e.node.src), p.url.href); t.check(!!u && u.protocol === 'https:' && isAmp(u.hostname), 'script-from-elsewhere', { src: String(e.node.src), ops }); if (tag) { t.count('nonce'); t.check(e.node.getAttribute('nonce') === 'n0', 'nonce-missing', {}); } } if (s.length) { const l = s[s.length - 1]; t.check(new URL(String(l.node.src), p.url.href).href === new URL(String(expected[s.length - 1])).href, 'other-script-loaded', { got: String(l.node.src), want: expected[s.length - 1] }); cur = l.node; } return true; };
    const begin = (s) => { expected.push(s); state = doc.body === null ? 'waiting' : 'opening'; if (failed) { t.count('retry-after-failure'); } };
    try { sut.WindowMessenger.setup(); } catch (e) { t.violation('setup-threw', { e: String(e), raw }); return; }
    d.storageFault = null; if (sessOk) { t.count('session-loaded'); begin(session.injectSrc); } else if (raw) t.count('session-rejected'); if (!audit('setup')) return; t.evaluated(canon([raw, late]));
    for (let i = 0, n = r.int(2, 12); i < n; i++) {
      const k = r.weighted([[8, 'message'], [2, 'settle'], [1, 'time'], [late ? 2 : 0, 'body']]);
      if (k === 'message') {
        const o = origin(r); const s = src(r); const kind = r.weighted([[8, 'open'], [1, 'type'], [2, 'bad']]); const data = kind === 'open' ? { type: 'OpenOverlay', context: { injectSrc: s, amplitudeWindowUrl: 'x' } } : kind === 'type' ? { type: r.pick(['openoverlay', 'OpenOverlay ', 'Other', '', null, {}]), context: { injectSrc: s } } : r.pick([null, undefined, 5, 'OpenOverlay', '', [], {}, { type: 'OpenOverlay' }, { type: 'OpenOverlay', context: null }, { type: 'OpenOverlay', context: {} }, { type: 'OpenOverlay', context: 'https://app.amplitude.com' }, { context: { injectSrc: s } }]);
        const u = typeof o === 'string' && o ? parse(o) : null; const oOk = !!u && isAmp(u.hostname); const wants = oOk && kind === 'open' && ok(s); ops.push([o, kind, s]);
        try { p.win.dispatch('message', { type: 'message', origin: o, source: {}, data: data === undefined ? undefined : p.json({ d: data }).d }); } catch (e) { t.violation('message-threw', { e: String(e), o, data }); }
        if (!oOk) t.count('origin-rejected'); else if (kind === 'type') t.count('other-type'); else if (kind === 'bad') t.count('malformed'); else if (!ok(s)) t.count('src-rejected');
        if (wants && sessOk) t.count('session-blocks-messages'); else if (wants && state !== 'closed') t.count('busy-rejected'); else if (wants) { t.count('loaded'); begin(s); }
        t.evaluated(canon([o, data, state])); if (!audit('message')) return;
      } else if (k === 'settle' && state === 'opening' && cur) { const how = r.pick(['load', 'error', 'hang']); if (how === 'hang') { t.count('hang'); continue; } ops.push([how]); cur.fire(how); await turn(); await turn(); if (how === 'load') state = 'open'; else { state = 'closed'; failed = true; t.check(!doc.getElementById('amp-exp-loading'), 'indicator-left', {}); t.count('indicator-cleared'); } }
      else if (k === 'time') { await d.clock.advance(r.pick([16, 500, 10001])); if (d.clock.now && state === 'opening' && r.bool()) { await d.clock.advance(10000); t.count('indicator-timeout'); t.check(!doc.getElementById('amp-exp-loading'), 'indicator-left', {}); } if (!audit('time')) return; }
      else if (k === 'body' && doc.body === null) { doc.body = body; await d.clock.advance(40); if (state === 'waiting') state = 'opening'; if (!audit('body')) return; }
    }
    if (doc.body === null) { doc.body = body; await d.clock.advance(40); if (state === 'waiting') state = 'opening'; audit('end'); } t.check(expected.length === 0 || scripts().length === expected.length, 'script-count', {}); for (const e of d.clock.errors) t.violation('timer-threw', { e: String(e) });
  } }],
};
