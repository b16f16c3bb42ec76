import { Device } from '../lib/env.mjs';
import { canon, turn } from '../lib/util.mjs';
import { TAG, tagPage, startTag, recorder, flag, page, url as urlIs } from '../lib/tag.mjs';
const HOST = 'https://www.example.com'; const PATHS = ['/', '/shop', '/cart', '/shop?p=1'];
const HREFS = ['/cart', '/shop?p=2#x', '#part', 'sub/page', '?q=1', HOST + '/other', 'https://elsewhere.example.org/x?y=1', '//cdn.example.net/z', 'http://www.example.com/plain', 'mailto:a@example.com'];
const LINK = '(function (e) { if (!e.defaultPrevented && e.button === 0 && (!target() || target() === "_self") && !(e.metaKey || e.altKey || e.ctrlKey || e.shiftKey)) { e.preventDefault(); route(to); } })';
const OTHER = '(function (e) { seen(e); })';
export default {
  property: 'C56', bundles: { tag: TAG },
  rule: 'the whole tag runs in a simulated single-page app (a React-like root that dispatches clicks to the handlers kept on the elements, a router with or without Next.js, plain links, links with other handlers) whose links experiments change while their pages are active. Random clicks (on links and inside them, plain, modified, other buttons, link targets), navigations, variants that come and go, a second script in the page, and removals of children, of nodes moved or removed meanwhile and of nothing. A monitor records every navigation however it is made and compares each click with what the app alone would do with the link as shown, and each removal with what the DOM would do. Non-trivial = distinct judged (click, link, address)',
  requires: ['changed-link', 'unchanged-link', 'changed-then-restored', 'plain-click', 'modified-click', 'other-button', 'link-target', 'inside-link', 'outside-links', 'soft', 'soft-next', 'soft-pushstate', 'hard', 'native', 'new-tab', 'not-app-link', 'app-link', 'plain-link', 'two-changes', 'second-script-ran', 'noticed', 'page-then-active', 'page-then-inactive', 'remove-child', 'remove-moved', 'remove-removed', 'remove-nothing', 'remove-from-svg'],
  workloads: [{ name: 'apps', quick: 1200, thorough: 50000, async run(t) {
    const r = t.rng; const d = new Device({ seed: t.index }); const ops = []; const n = r.int(1, 4); const links = []; const flags = []; const pages = {};
    for (let i = 0; i < n; i++) links.push({ id: 'l' + i, to: r.pick(['/', '/shop', '/cart', '/shop?p=1']), kind: r.weighted([[4, 'app'], [1.5, 'plain'], [1.5, 'other']]), target: r.weighted([[5, null], [1, '_self'], [1, '_blank'], [0.5, 'frame'], [0.3, '_top']]), deep: r.bool(0.5) });
    for (let f = 0, k = r.int(1, 3); f < k; f++) { const key = 'f' + f; flags.push(flag(key, { payloads: { treatment: [{ action: 'mutate', data: { mutations: r.list(1, 2, () => ({ selector: '#' + r.pick(links).id, action: 'set', attribute: r.bool(0.85) ? 'href' : 'class', value: r.pick(HREFS) })) } }] } })); pages[key] = { ['p' + key]: page('p' + key, { conditions: r.bool(0.6) ? [[urlIs('contains', r.pick(['/shop', '/cart']))]] : undefined }) }; }
    const html = `<!DOCTYPE html><html><head></head><body><div id="root">${links.map((l) => `<a id="${l.id}" href="${l.to}"${l.target ? ` target="${l.target}"` : ''}>${l.deep ? '<span><i>go</i></span>' : 'go'}</a>`).join('')}<button id="btn"><b>x</b></button><ul id="list"><li></li><li></li><li></li></ul><svg id="svg"><g></g></svg></div></body></html>`;
    const p = tagPage(d, { url: HOST + r.pick(PATHS), seed: t.index, html, fetch: () => ({ status: 200, body: '{}' }) }); recorder(p, { user: { user_id: 'u', device_id: 'd' } }); p.g.__domMutator = p.eval('({ live: new Map(), events: [], fail: null })'); const w = p.dom.window; const doc = w.document;
    const navs = []; const next = r.bool(0.4); const soft = (how, to) => { navs.push([how, new URL(to, p.url.href).href]); }; let byRouter = false; const go = (to) => { byRouter = true; try { p.g.history.pushState({}, '', to); } finally { byRouter = false; } };
    if (next) p.g.next = p.json({}), p.g.next.router = Object.assign(p.g.Object.create(null), { push: (to) => { soft('next', to); go(to); } });
    const route = (to) => { soft('route', to); go(to); }; const native = p.g.history.pushState; p.g.history.pushState = function (s, q, to) { if (!byRouter) soft('push', to); return native.call(this, s, q, to); };
    let pops = 0; p.win.addEventListener('popstate', () => { pops++; });
    for (const l of links) { l.el = doc.getElementById(l.id); if (l.kind !== 'plain') { const make = p.eval(`(function (to, target, route, seen) { return ${l.kind === 'app' ? LINK : OTHER}; })`); l.el['__reactFiber$' + r.int(1, 1e6)] = Object.assign(p.g.Object.create(null), { memoizedProps: Object.assign(p.g.Object.create(null), { onClick: make(l.to, () => l.el.getAttribute('target'), route, () => {}) }) }); } }
    const errs = []; w.addEventListener('error', (e) => { errs.push(String(e.error?.stack || e.message).slice(0, 200)); e.preventDefault?.(); });
    const root = doc.getElementById('root'); root.addEventListener('click', (e) => { for (let x = e.target; x && x !== root; x = x.parentNode) { const k = Object.keys(x).find((q) => q.startsWith('__reactFiber')); if (k) x[k].memoizedProps.onClick(e); } });
    const follow = (e) => { if (e.followed) return; e.followed = true; const a = e.target.closest?.('a'); if (!e.defaultPrevented && a?.hasAttribute('href') && e.button < 2) { const tgt = a.getAttribute('target'); navs.push([e.ctrlKey || e.metaKey || e.shiftKey || e.button === 1 || (tgt && tgt !== '_self') ? 'tab' : e.altKey ? 'save' : 'native', a.href]); } e.preventDefault(); };
    let last = null; w.addEventListener('click', (e) => { last = e; }, true); w.addEventListener('click', follow);
    // keeps the links as the live mutations say, as dom-mutator would
    const sync = () => { const live = [...p.g.__domMutator.live.values()]; for (const l of links) { const ms = live.filter((s) => s.selector === '#' + l.id && s.attribute === 'href'); const was = l.changed; l.changed = ms.length > 0; if (ms.length > 1) t.count('two-changes'); if (was && !l.changed) { l.restored = true; t.count('changed-then-restored'); } l.el.setAttribute('href', ms.length ? ms[ms.length - 1].value : l.to); if (live.some((s) => s.selector === '#' + l.id) || l.el.__mutationRecord__) l.el.__mutationRecord__ = { element: l.el, attributes: { ...(ms.length || l.restored ? { href: { mutations: ms.slice() } } : {}), class: { mutations: [] } } }; } };
    const { client } = await startTag(t, p, { flags, pages }); if (!t.check(client?.isRunning, 'never-started', { console: p.consoleLog.slice(0, 3) })) return; if (r.bool(0.3)) { const again = p.load(t.sut.tag); const keep = p.g.webExperiment; p.g.webExperiment = undefined; again.initialize('client-fedcba9876543210', p.json({ initialFlags: '[]', pageObjects: '{}' }), p.json({})); await p.settle(200); if (p.g.webExperiment !== keep && p.g.webExperiment?.isRunning) t.count('second-script-ran'); p.g.webExperiment = keep; }
    await p.settle(60); sync(); const active = () => canon(Object.fromEntries(Object.entries(client.getActivePages()).map(([f, x]) => [f, Object.keys(x)])));
    const wantActive = () => canon(Object.fromEntries(Object.entries(pages).map(([f, ps]) => [f, Object.values(ps).filter((x) => !x.conditions || p.url.href.includes(x.conditions[0][0].values[0])).map((x) => x.id)]).filter(([, x]) => x.length)));
    const det = (o) => ({ at: p.url.href, next, links: links.map((l) => [l.id, l.kind, l.to, l.target, l.el.getAttribute('href'), !!l.changed]), ops: ops.slice(-5), ...o });
    for (let i = 0, m = r.int(4, 14); i < m; i++) {
      const k = r.weighted([[7, 'click'], [2, 'nav'], [1, 'variants'], [3, 'remove']]);
      if (k === 'nav') { const to = r.pick(PATHS); ops.push([k, to]); if (HOST + to !== p.url.href) go(to); await p.settle(60); sync(); t.equal(active(), wantActive(), 'active-pages', det({})); continue; }
      if (k === 'variants') { if (r.bool()) client.revertVariants(); else client.applyVariants()?.catch?.(() => {}); ops.push([k]); await p.settle(60); sync(); continue; }
      if (k === 'remove') {
        const list = doc.getElementById('list'); const svg = doc.getElementById('svg'); const how = r.pick(['child', 'moved', 'removed', 'nothing', 'svg', 'svg-stranger']); ops.push([k, how]); const count = list.childNodes.length; const parent = how.startsWith('svg') ? svg : list; let node = how === 'svg' ? svg.appendChild(doc.createElementNS('http://www.w3.org/2000/svg', 'g')) : list.appendChild(r.bool() ? doc.createElement('li') : doc.createTextNode('x')); let where = parent;
        if (how === 'moved') { where = doc.body; where.appendChild(node); } else if (how === 'removed') { node.remove(); where = null; } else if (how === 'svg-stranger') where = list; else if (how === 'nothing') { node.remove(); node = r.pick([null, undefined]); }
        let out; let err; try { out = parent.removeChild(node); } catch (e) { err = e; } const child = how === 'child' || how === 'svg';
        if (child) { t.check(!err && out === node && node.parentNode === null, 'child-not-removed', det({ how, e: String(err) })); t.count('remove-child'); if (how === 'svg') t.count('remove-from-svg'); } else if (how === 'nothing') { t.count('remove-nothing'); t.check(err instanceof w.TypeError || err?.name === 'TypeError', 'remove-nothing', det({ e: String(err) })); }
        else if (how === 'svg-stranger') { t.check(err?.name === 'NotFoundError' && node.parentNode === list, 'svg-stranger', det({ e: String(err) })); node.remove(); } else { t.count('remove-' + how); t.check(!err && out === node && node.parentNode === where, 'stranger-removal', det({ how, e: String(err), at: node.parentNode?.tagName })); node.remove?.(); }
        t.check(list.childNodes.length === count, 'others-removed', det({ how })); t.evaluated(canon([how, node?.nodeType])); continue;
      }
      const outside = r.bool(0.08); const l = r.pick(links); const el = outside ? r.pick([doc.querySelector('#btn b'), doc.body, doc, doc.querySelector('#btn b').firstChild ?? doc.body]) : l.deep && r.bool(0.6) ? r.pick([...l.el.querySelectorAll('span, i')]) : l.el; const mod = r.weighted([[5, {}], [1, { ctrlKey: true }], [0.7, { metaKey: true }], [0.7, { shiftKey: true }], [0.7, { altKey: true }], [0.7, { button: 1 }]]); const modified = Object.keys(mod).length > 0; const href = l.el.getAttribute('href'); const abs = l.el.href; const from = p.url.href; const n0 = navs.length; const h0 = p.navigations.length; const p0 = pops; const where = active();
      if (r.bool(0.05)) l.el.setAttribute('target', l.target = r.pick(['_self', '_blank'])); else if (r.bool(0.03)) { l.el.removeAttribute('target'); l.target = null; }
      const e0 = errs.length; last = null; p.fire(el, 'click', { cancelable: true, button: 0, composed: true, ...mod }); if (last && !last.followed) follow(last); // the link is followed also if its click did not get to the window
      for (let j = 0; j < 3; j++) await turn();
      t.check(errs.length === e0, 'click-threw', () => det({ errs: errs.slice(e0, e0 + 2) })); const hard = p.navigations.slice(h0).map((x) => ['hard', new URL(x.url, from).href]); const got = [...navs.slice(n0), ...hard]; t.count(outside ? 'outside-links' : el === l.el ? 'plain-link' : 'inside-link'); const away = !!l.target && l.target !== '_self'; t.count(modified ? (mod.button ? 'other-button' : 'modified-click') : 'plain-click'); if (away) t.count('link-target'); if (!outside) t.count(l.kind === 'app' ? 'app-link' : 'not-app-link');
      let want; const nav = new URL(href, from).href; if (outside) want = []; else if (l.kind === 'app' && !modified && !away) { if (l.changed) want = [[new URL(nav).origin !== HOST ? 'hard' : next ? 'next' : 'push', nav]]; else want = [['route', new URL(l.to, from).href]]; } else want = [[mod.altKey && !away ? 'save' : away || (modified && !mod.altKey) ? 'tab' : 'native', abs]];
      ops.push(['click', l.id, mod, href, got]); if (!outside) t.count(l.changed ? 'changed-link' : 'unchanged-link'); for (const [how] of got) t.count({ hard: 'hard', native: 'native', tab: 'new-tab', next: 'soft', push: 'soft', route: 'soft', save: 'native' }[how]); if (want[0]?.[0] === 'next') t.count('soft-next'); if (want[0]?.[0] === 'push') t.count('soft-pushstate');
      t.equal(got, want, 'navigations', det({ mod, l: l.id, from, el: el.tagName, outside })); t.equal(pops - p0, want[0]?.[0] === 'push' ? 1 : 0, 'router-notified', det({ mod, l: l.id })); if (want[0]?.[0] === 'push') t.count('noticed'); t.evaluated(canon([got, l.kind, l.changed, mod, l.target, from, el.tagName]));
      if (['next', 'push', 'route'].includes(want[0]?.[0])) { t.equal(p.url.href, want[0][1], 'address', det({})); await p.settle(60); sync(); const now = active(); t.equal(now, wantActive(), 'active-pages', det({})); if (now !== where) t.count(now.length > where.length ? 'page-then-active' : 'page-then-inactive'); } else t.equal(p.url.href, from, 'address', det({ want }));
    }
  } }],
};
