import { Device } from '../lib/env.mjs';
import { canon, clone, turn } from '../lib/util.mjs';
import { TAG, API, tagPage, configs, recorder, flag, page } from '../lib/tag.mjs';
const HOST = 'https://www.example.com'; const PATHS = ['/', '/shop', '/shop/b', '/cart'];
const KEYS = ['f1', 'f2', 'f3', 'rem', 'rem2']; const isRemote = (f) => /^rem/.test(f);
export default {
  property: 'C52', bundles: { tag: TAG },
  rule: 'tab sessions of up to five documents whose addresses may start, replace or end a preview (with unrelated parameters, unknown flags and variants, repeated parameters and a hash), over valid and damaged session data, with latest configurations that arrive, differ, fail, hang or are malformed; the tag runs in each document through navigations and triggers. Per step: the live mutations are exactly those of the chosen variants of previewed flags and of the assigned variants of the others on the active pages; impressions of previewed flags name the chosen variant; the address keeps everything but the preview parameters; at most one notification, which lists what is previewed; configurations are asked for at most once and only for previews. Non-trivial = distinct (address, remembered choice, configuration outcome, changes in effect)',
  requires: ['started-by-address', 'remembered', 'replaced', 'ended', 'not-a-preview', 'unknown-flag', 'unknown-variant', 'other-params', 'hash', 'latest-used', 'latest-failed', 'latest-hung', 'latest-malformed', 'latest-only-flag', 'previewed-local', 'previewed-remote', 'unpreviewed', 'against-assignment', 'nav', 'toggle', 'impression', 'modal', 'no-modal', 'dismissed', 'two-previewed', 'eu', 'damaged-session', 'all-remote-previewed', 'some-remote-previewed', 'control', 'extension', 'late-body', 'markup-listed', 'window-config', 'experiment-key'],
  workloads: [
    { name: 'sessions', quick: 700, thorough: 30000, async run(t) {
      const r = t.rng; const d = new Device({ seed: t.index }); const tab = d.tab(); const defs = {}; const pages = {}; const flags = []; const assigned = {}; const eu = r.bool(0.2);
      const def = (f, tag) => ({ A: [mut(f, 'A', tag)], B: r.bool(0.7) ? [mut(f, 'B', tag), mut(f, 'B2', tag)] : [], control: r.bool(0.3) ? [mut(f, 'control', tag)] : undefined }); const mut = (f, v, tag) => ({ action: 'mutate', data: { mutations: [{ selector: '#' + f + v, action: 'set', attribute: 'html', value: `${tag}:${f}:${v}` }] } });
      const mkFlag = (f, o) => flag(f, { mode: isRemote(f) ? 'remote' : 'local', blocking: false, payloads: o, when: ['A', 'B', 'control'].map((v) => [['user_properties', f], 'is', [v], v]), rest: 'off' });
      const keyed = (list) => { for (const x of list) for (const v of Object.values(x.variants)) if (v.key !== 'off') v.metadata = { ...v.metadata, experimentKey: 'exp-' + x.key }; };
      const used = r.subset(KEYS, 0.7); if (!used.length) used.push('f1');
      for (const f of used) { defs[f] = def(f, 'given'); pages[f] = { u: page(f + 'u', { conditions: r.bool(0.5) ? [[{ selector: ['context', 'page', 'url'], op: 'contains', values: [r.pick(['/shop', '/cart', 'id=5'])] }]] : undefined }), ...(r.bool(0.4) ? { m: page(f + 'm', { type: 'manual', value: { name: 'go' } }) } : {}) }; pages[f] = Object.fromEntries(Object.values(pages[f]).map((x) => [x.id, x])); flags.push(mkFlag(f, clone(defs[f]))); assigned[f] = r.pick(['A', 'B', 'off', 'control']); }
      // the latest configurations differ from those in the script
      const ldefs = {}; const lflags = []; const lpages = clone(pages); for (const f of used) { ldefs[f] = clone(defs[f]); if (!isRemote(f) && r.bool(0.4)) ldefs[f] = def(f, 'latest'); lflags.push(mkFlag(f, clone(ldefs[f]))); }
      const extra = r.bool(0.4); if (extra) { ldefs.fresh = def('fresh', 'latest'); lflags.push(mkFlag('fresh', clone(ldefs.fresh))); lpages.fresh = { fu: page('fu') }; assigned.fresh = 'off'; }
      keyed(flags); keyed(lflags); let remembered = {}; const n = r.int(1, 5); const choice = () => Object.fromEntries(r.subset([...used, ...(extra ? ['fresh'] : []), ...(r.bool(0.2) ? ['zz'] : [])], 0.5).map((f) => [f, r.pick(['A', 'A', 'B', 'control', 'nope', 'off'])]));
      for (let i = 0; i < n; i++) {
        const path = r.pick(PATHS); const kind = r.weighted([[3, 'preview'], [3, 'plain'], [1, 'end'], [0.7, 'not']]); const prm = []; let want = null;
        if (kind === 'preview') { want = choice(); if (!Object.keys(want).length) want = { [used[0]]: 'A' }; }
        const other = r.list(0, 2, () => r.pick([['id', '5'], ['utm_source', 'ads'], ['q', 'a b&c'], ['empty', ''], ['id', '6'], ['<b class="mark">q</b>', '<i class="mark">v</i>']]));
        for (const [k, v] of Object.entries(want ?? (kind === 'not' ? choice() : {}))) prm.push([k, v]); if (kind === 'preview' || kind === 'end') prm.push(['PREVIEW', 'true']); else if (kind === 'not') prm.push(['PREVIEW', r.pick(['false', '1', 'TRUE', ''])]);
        const all = r.shuffle ? r.shuffle([...prm, ...other]) : r.bool() ? [...prm, ...other] : [...other, ...prm]; const hash = r.bool(0.2) ? '#h' : ''; if (hash) t.count('hash'); if (other.length) t.count('other-params');
        const u = HOST + path + (all.length ? '?' + all.map(([k, v]) => encodeURIComponent(k) + '=' + encodeURIComponent(v)).join('&') : '') + hash;
        const damaged = i === 0 && r.bool(0.08) ? r.pick(['{}', 'null', '{"previewFlags":null}', '[]', '"x"', '{', '{"previewFlags":"f1"}', '{"previewFlags":["f1"]}', '{"other":1}']) : null;
        const noted = kind === 'preview' || kind === 'end' ? Object.fromEntries(other.filter(([, v]) => v)) : {}; if (kind === 'preview') t.count(Object.keys(remembered).length ? 'replaced' : 'started-by-address'); if (kind === 'end') t.count('ended'); if (kind === 'not') t.count('not-a-preview'); if (kind === 'plain' && Object.keys(remembered).length) t.count('remembered');
        const chosen = kind === 'preview' || kind === 'end' ? { ...noted, ...want } : remembered; const isPreview = kind === 'preview' || kind === 'end' || Object.keys(chosen).length > 0;
        const outcome = r.weighted([[5, 'ok'], [1, 'fail'], [1, 'error'], [0.7, 'hang'], [0.7, 'malformed'], [0.4, 'partial']]); const asked = []; let wide = 0; const ext = r.bool(0.15); const fetches = isPreview || ext; if (ext && !isPreview) t.count('extension');
        const p = tagPage(d, { url: u, tab, seed: t.index + ':' + i, fetch: (q) => { if (/configs/.test(q.url)) { asked.push(q); return { ok: { status: 200, body: { flags: lflags, pageObjects: lpages, ...(r.bool() ? { behavioralTargetingRules: {} } : {}) }, delay: r.pick([1, 300]) }, fail: { status: r.pick([500, 404, 204]), body: r.pick(['{}', '{"flags":[],"pageObjects":{}}']), delay: 50 }, error: { error: 'offline' }, hang: { hang: true, delay: 1e7, status: 200, body: '{}' }, malformed: { status: 200, body: r.pick(['{', 'null', '', '<html>']), delay: 20 }, partial: { status: 200, body: { flags: lflags }, delay: 20 } }[outcome]; }
          if (/flags|vardata/.test(q.url)) { wide++; return { status: 200, body: (/flags/.test(q.url) ? (fetches && outcome === 'ok' && (!damaged || ext) ? lflags : flags).filter((f) => isRemote(f.key)) : []).map((f) => ({ ...f, metadata: { ...f.metadata, evaluationMode: 'local' } })), delay: r.pick([1, 100]) }; } return { status: 200, body: '{}' }; } });
        if (ext) p.g.WebExperiment = p.json({ injectedByExtension: true }); if (damaged !== null) { p.g.sessionStorage.setItem('amp-preview-mode', damaged); t.count('damaged-session'); }
        p.g.__domMutator = p.eval('({ live: new Map(), events: [], fail: null })'); p.g.__domMutator.fail = () => false; const track = recorder(p); p.g.experimentIntegration.getUser = () => p.json({ user_id: 'u1', device_id: 'd1', user_properties: { ...assigned } });
        const doc = p.g.document; const body = doc.body; const late = r.bool(0.15); if (late) { t.count('late-body'); Object.defineProperty(doc, 'body', { value: null, writable: true, configurable: true }); }
        const by = r.weighted([[3, 'argument'], [1, 'window'], [1, 'both']]); if (by !== 'argument') { t.count('window-config'); p.g.experimentConfig = p.json({ serverZone: eu ? 'EU' : 'US' }); }
        const before = p.navigations.length; const sut = p.load(t.sut.tag); sut.initialize(API, configs(p, { flags, pages }), p.json(by === 'window' ? {} : by === 'both' ? { serverZone: eu ? 'US' : 'EU' } : eu ? { serverZone: 'EU' } : {})); if (eu) t.count('eu');
        for (let k = 0; k < (outcome === 'hang' ? 300 : 60) && !p.g.webExperiment?.isRunning; k++) await p.settle(50); const client = p.g.webExperiment; await p.settle(200);
        const det = (x) => ({ doc: i, u, at: p.url.href, kind, chosen, outcome, assigned, damaged, ...x }); const ops = [];
        if (!t.check(client?.isRunning === true, 'never-started', det({ console: p.consoleLog.slice(0, 3) }))) { p.close(); return; }
        if (damaged === null || ext) t.check(asked.length === (fetches ? 1 : 0), 'configurations-asked', det({ n: asked.length })); else t.check(asked.length <= 1, 'configurations-asked', det({ n: asked.length }));
        for (const q of asked) { t.check(q.url === `https://api.lab${eu ? '.eu' : ''}.amplitude.com/web/v1/configs`, 'configurations-url', det({ url: q.url })); const hs = q.headers ?? q.init?.headers ?? {}; t.check(Object.entries(hs).some(([k, v]) => k.toLowerCase() === 'authorization' && v === 'Api-Key ' + API), 'configurations-key', det({ hs })); }
        const latest = outcome === 'ok' && asked.length > 0; if (fetches) t.count(outcome === 'ok' ? 'latest-used' : outcome === 'hang' ? 'latest-hung' : outcome === 'fail' || outcome === 'error' ? 'latest-failed' : 'latest-malformed');
        const D = latest ? ldefs : defs; const P = latest ? lpages : pages; const pre = Object.keys(chosen).filter((f) => D[f]); if (Object.keys(chosen).some((f) => !D[f])) t.count('unknown-flag'); if (latest && chosen.fresh) t.count('latest-only-flag'); if (pre.length > 1) t.count('two-previewed');
        // the address
        const strip = new URL(u); const now = new URL(p.url.href); t.check(now.origin + now.pathname + now.hash === strip.origin + strip.pathname + strip.hash, 'address-changed', det({}));
        const rest = kind === 'preview' || kind === 'end' ? all.filter(([k]) => k !== 'PREVIEW' && !pre.includes(k)) : all; const left = [...now.searchParams]; t.check(canon(left) === canon(rest), 'address-parameters', det({ left, rest })); t.check(p.navigations.length === before, 'navigated', det({}));
        const rr = Object.keys(D).filter(isRemote); if (rr.length && rr.every((f) => chosen[f])) { t.count('all-remote-previewed'); t.check(wide === 0, 'remote-fetched-for-previews', det({ wide })); } else if (rr.some((f) => chosen[f])) { t.count('some-remote-previewed'); t.check(wide > 0, 'remote-not-fetched', det({ wide })); }
        const known = (f) => chosen[f] && (chosen[f] === 'off' || chosen[f] === 'control' || chosen[f] in D[f]);
        let modalSeen = 0; let seen = 0; let dismissed = false;
        const judge = (why) => {
          const act = client.getActivePages(); const exp = []; for (const f of Object.keys(D)) { const pages_ = Object.keys(act[f] ?? {}); const v = f in chosen ? chosen[f] : assigned[f]; if (f in chosen) { t.count(isRemote(f) ? 'previewed-remote' : 'previewed-local'); if (!known(f)) t.count('unknown-variant'); if (v !== assigned[f]) t.count('against-assignment'); if (v === 'control') t.count('control'); } else t.count('unpreviewed'); const pl = D[f][v]; if (pages_.length && Array.isArray(pl)) for (const a of pl) for (const m of a.data.mutations) exp.push(m.value); }
          const got = [...p.g.__domMutator.live.values()].map((s) => s.value).sort(); exp.sort(); const miss = exp.filter((x) => !got.includes(x)); const more = got.filter((x) => !exp.includes(x));
          t.check(!miss.length, miss.some((m) => m.split(':')[1] in chosen) ? 'preview-missing' : 'assigned-missing', det({ why, miss, got, act: Object.keys(act), ops })); t.check(!more.length, more.some((m) => m.split(':')[1] in chosen) ? 'preview-wrong' : 'others-wrong', det({ why, more, exp, act: Object.keys(act), ops })); if (!miss.length && !more.length) t.check(got.length === exp.length, 'twice', det({ why, got, ops }));
          for (; seen < track.length; seen++) { const e = track[seen]; const f = e.props.flag_key; if (e.type !== '$impression') continue; t.count('impression'); if (f in chosen && D[f]) { t.check((e.props.variant ?? 'off') === chosen[f], 'impression-variant', det({ why, e, ops })); if (D[f] && e.props.variant && e.props.variant !== 'off' && known(f)) { t.count('experiment-key'); t.check(e.props.experiment_key === 'exp-' + f, 'impression-experiment', det({ why, e, ops })); } } else if (D[f]) t.check((e.props.variant ?? 'off') === assigned[f], 'impression-of-other', det({ why, e, ops })); }
          for (const f of pre) if (known(f) && Array.isArray(D[f][chosen[f]]) && D[f][chosen[f]].length && Object.keys(act[f] ?? {}).length) t.check(track.some((e) => e.props.flag_key === f), 'impression-missing', det({ why, f, ops }));
          const ms = p.$$('#amp-preview-modal'); t.check(ms.length <= 1, 'several-notifications', det({ why, n: ms.length, ops })); if (ms.length) { modalSeen++; t.check(!ms[0].querySelector('.mark'), 'notification-markup', det({ why })); if (ms[0].textContent.includes('class="mark"')) t.count('markup-listed'); const rows = [...ms[0].querySelectorAll('.amp-preview-modal-row')].map((x) => x.textContent.replace(/\s+/g, ' ')); for (const f of pre) t.check(rows.some((x) => x.includes(f) && x.includes(chosen[f])), 'notification-row', det({ rows, f })); }
          const due = pre.some((f) => chosen[f] !== 'off' && known(f)) || pre.some((f) => chosen[f] === 'off'); if (!due) { t.count('no-modal'); if (damaged === null) t.check(!ms.length, 'notification-without-preview', det({ why })); }
          t.evaluated(canon([u, chosen, latest, got]));
        };
        judge('start'); await p.settle(700); if (late) { judge('no body'); doc.body = body; await p.settle(r.pick([40, 700])); } judge('later'); if (pre.some(known)) { t.count('modal'); t.check(modalSeen > 0, 'no-notification', det({ pre })); }
        const steps = r.int(0, 4); for (let s = 0; s < steps; s++) {
          const k = r.pick(['nav', 'nav', 'toggle', 'wait', 'dismiss']); let arg;
          if (k === 'nav') { arg = r.pick(PATHS) + (r.bool(0.3) ? '?id=5' : ''); t.count('nav'); p.g.history[r.pick(['pushState', 'replaceState'])]({}, '', arg); } else if (k === 'toggle') { arg = r.bool(0.7); t.count('toggle'); client.toggleManualPageObject('go', arg); } else if (k === 'dismiss') { const b = p.$('.amp-preview-modal-close'); if (!b) continue; p.fire(b, 'click'); t.count('dismissed'); t.check(!p.$('#amp-preview-modal'), 'not-dismissed', det({})); }
          ops.push([k, arg]); await p.settle(k === 'wait' ? 1500 : r.pick([100, 700])); judge(k);
        }
        if (kind === 'preview' || kind === 'end') remembered = chosen; if (damaged !== null && kind === 'plain') remembered = {};
        if (damaged !== null && kind !== 'preview' && kind !== 'end') { p.g.sessionStorage.removeItem('amp-preview-mode'); }
        for (const f of used) if (r.bool(0.2)) assigned[f] = r.pick(['A', 'B', 'off', 'control']);
        p.close();
      }
    } },
  ],
};
