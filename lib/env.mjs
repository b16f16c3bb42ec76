// Simulated browser: Device (shared storage, cookies, clock) and Page (one page load = one fresh vm context).
import vm from 'node:vm';
import { Rng } from './prng.mjs';
import { turn } from './util.mjs';
import { repoRequire } from './build.mjs';

export class Clock {
  constructor(start = 1_700_000_000_000) { this.now = start; this.seq = 0; this.tasks = new Map(); this.fired = 0; this.errors = []; }
  add(owner, kind, fn, ms, args) {
    const id = ++this.seq;
    ms = Number(ms); if (!(ms >= 0)) ms = 0; if (kind === 'interval' && ms < 1) ms = 1;
    this.tasks.set(id, { id, owner, kind, fn, at: this.now + ms, ms, args, seq: id });
    return id;
  }
  remove(id) { this.tasks.delete(typeof id === 'object' && id !== null ? id.id : id); }
  dropOwner(owner) { for (const [id, t] of this.tasks) if (t.owner === owner) this.tasks.delete(id); }
  pending(pred = () => true) { return [...this.tasks.values()].filter(pred); }
  nextDue(limit) {
    let best = null;
    for (const t of this.tasks.values()) if (t.at <= limit && (!best || t.at < best.at || (t.at === best.at && t.seq < best.seq))) best = t;
    return best;
  }
  /** Fire everything due within ms, in time order, draining microtasks after each task. */
  async advance(ms, max = 100000) {
    const end = this.now + ms;
    await turn();
    for (let n = 0; n < max; n++) {
      const t = this.nextDue(end);
      if (!t) break;
      if (t.at > this.now) this.now = t.at;
      if (t.kind === 'interval') { t.at = this.now + t.ms; t.seq = ++this.seq; } else this.tasks.delete(t.id);
      this.fired++;
      try { if (typeof t.fn === 'function') t.fn(...t.args); } catch (e) { this.errors.push(e); t.owner?.onTimerError?.(e); }
      await turn();
    }
    this.now = Math.max(this.now, end);
    await turn();
  }
  /** Move time forward without firing anything (a frozen or suspended tab). */
  skip(ms) { this.now += ms; }
}

const SUFFIXES = new Set(['com', 'org', 'net', 'io', 'dev', 'uk', 'co.uk', 'com.au', 'au', 'github.io', 'jp', 'co.jp', 'br', 'com.br', 'localhost', 'app', 'vercel.app', 'de', 'fr', 'local']);
const isIp = (h) => /^\d+\.\d+\.\d+\.\d+$/.test(h) || h.includes(':');
export class CookieJar {
  constructor(clock) { this.clock = clock; this.cookies = []; this.seq = 0; this.suffixes = SUFFIXES; this.refuse = null; this.log = []; }
  gc() { this.cookies = this.cookies.filter((c) => c.expires === null || c.expires > this.clock.now); }
  visible(host, pathName = '/', secure = true) {
    this.gc();
    return this.cookies.filter((c) => (c.hostOnly ? c.domain === host : host === c.domain || host.endsWith('.' + c.domain))
      && (pathName === c.path || pathName.startsWith(c.path.endsWith('/') ? c.path : c.path + '/')) && (secure || !c.secure))
      .sort((a, b) => b.path.length - a.path.length || a.seq - b.seq);
  }
  get(host, p, secure) { return this.visible(host, p, secure).map((c) => (c.name === '' ? c.value : c.name + '=' + c.value)).join('; '); }
  set(host, str, pathName = '/', secure = true) {
    const parts = String(str).split(';');
    const nv = parts.shift();
    const eq = nv.indexOf('=');
    const name = (eq < 0 ? '' : nv.slice(0, eq)).trim(); const value = (eq < 0 ? nv : nv.slice(eq + 1)).trim();
    const c = { name, value, domain: host, hostOnly: true, path: '/', expires: null, secure: false, sameSite: undefined };
    let maxAge = null;
    for (const raw of parts) {
      const i = raw.indexOf('='); const k = (i < 0 ? raw : raw.slice(0, i)).trim().toLowerCase(); const v = i < 0 ? '' : raw.slice(i + 1).trim();
      if (k === 'domain' && v) {
        let d = v.toLowerCase(); if (d.startsWith('.')) d = d.slice(1);
        if (isIp(host)) { if (d !== host) return this.note('reject', host, str); continue; }
        if (this.suffixes.has(d)) { if (d !== host) return this.note('reject', host, str); continue; }
        if (!(host === d || host.endsWith('.' + d))) return this.note('reject', host, str);
        c.domain = d; c.hostOnly = false;
      } else if (k === 'path') { if (v.startsWith('/')) c.path = v; } else if (k === 'expires') { const t = Date.parse(v); if (!Number.isNaN(t)) c.expires = t; } else if (k === 'max-age') { const n = Number(v); if (!Number.isNaN(n)) maxAge = n; } else if (k === 'secure') c.secure = true; else if (k === 'samesite') c.sameSite = v;
    }
    if (maxAge !== null) c.expires = maxAge <= 0 ? -Infinity : this.clock.now + maxAge * 1000;
    if (c.secure && !secure) return this.note('reject', host, str);
    if ((c.name + c.value).length > 4096) return this.note('reject', host, str);
    if (this.refuse && this.refuse(c, host)) return this.note('refused', host, str);
    const idx = this.cookies.findIndex((o) => o.name === c.name && o.domain === c.domain && o.path === c.path && o.hostOnly === c.hostOnly);
    const expired = c.expires !== null && c.expires <= this.clock.now;
    if (idx >= 0) { c.seq = this.cookies[idx].seq; this.cookies.splice(idx, 1); } else c.seq = ++this.seq;
    if (!expired) this.cookies.push(c);
    this.note(expired ? 'delete' : 'set', host, str, c, idx >= 0);
  }
  note(op, host, str, c, existed) { this.log.push({ t: this.clock.now, op, host, str: String(str), name: c?.name, domain: c?.domain, value: c?.value, existed: !!existed, page: this.currentPage }); }
  dump() { this.gc(); return this.cookies.map((c) => ({ name: c.name, value: c.value, domain: (c.hostOnly ? '' : '.') + c.domain })); }
}

export class QuotaError extends Error { constructor() { super('The quota has been exceeded.'); this.name = 'QuotaExceededError'; } }
/** A Web Storage area over a Map; every operation is logged and may be made to fail. */
export function makeStorage(kind, map, page) {
  const rec = (op, key, value) => {
    const e = { t: page.clock.now, type: 'storage', area: kind, op, key, value };
    page.log.push(e);
    const f = page.device.storageFault; if (f && f(e, page)) { e.failed = true; throw op === 'set' ? new QuotaError() : new Error('SecurityError: storage access denied'); }
  };
  const api = {
    getItem(k) { k = String(k); rec('get', k); return map.has(k) ? map.get(k) : null; },
    setItem(k, v) { k = String(k); v = String(v); rec('set', k, v); map.set(k, v); },
    removeItem(k) { k = String(k); rec('remove', k); map.delete(k); },
    clear() { rec('clear'); map.clear(); },
    key(i) { rec('key', i); return [...map.keys()][i] ?? null; },
    get length() { rec('length'); return map.size; },
  };
  return new Proxy(api, {
    get(t, p) { if (typeof p === 'symbol' || p in t) return Reflect.get(t, p, t); return map.has(p) ? map.get(p) : undefined; },
    set(t, p, v) { api.setItem(p, v); return true; },
    has(t, p) { return p in t || map.has(p); },
    deleteProperty(t, p) { api.removeItem(p); return true; },
    ownKeys() { return [...map.keys()]; },
    getOwnPropertyDescriptor(t, p) { return map.has(p) ? { value: map.get(p), enumerable: true, configurable: true, writable: true } : undefined; },
  });
}

export class Device {
  constructor(opts = {}) {
    this.clock = new Clock(opts.now);
    this.jar = new CookieJar(this.clock);
    this.local = new Map(); // origin -> Map
    this.storageFault = null; this.cookieFault = null;
    this.rng = new Rng(opts.seed ?? 'device');
    this.pages = [];
  }
  localFor(origin) { if (!this.local.has(origin)) this.local.set(origin, new Map()); return this.local.get(origin); }
  tab() { return { session: new Map(), sessionFor(origin) { if (!this.session.has(origin)) this.session.set(origin, new Map()); return this.session.get(origin); } }; }
  page(opts = {}) { const p = new Page(this, opts); this.pages.push(p); return p; }
}

class EventTargetLite {
  constructor(log) { this.ls = new Map(); }
  addEventListener(type, fn, opt) {
    if (!fn) return; const l = this.ls.get(type) || []; if (!l.some((x) => x.fn === fn)) l.push({ fn, once: !!(opt && opt.once), signal: opt && opt.signal, capture: opt === true || !!(opt && opt.capture) }); this.ls.set(type, l);
  }
  removeEventListener(type, fn) { const l = this.ls.get(type); if (l) this.ls.set(type, l.filter((x) => x.fn !== fn)); }
  dispatch(type, ev) {
    for (const x of (this.ls.get(type) || []).slice()) {
      if (x.signal && x.signal.aborted) continue;
      if (ev && ev.stopped && !x.capture) continue; // a handler of the page below kept it from bubbling up
      if (!(this.ls.get(type) || []).includes(x)) continue;
      if (x.once) this.removeEventListener(type, x.fn);
      if (typeof x.fn === 'function') x.fn.call(this, ev); else x.fn.handleEvent?.(ev);
    }
  }
}

const JSDOM = () => repoRequire('jsdom').JSDOM;
export class Page {
  /** opts: url, tab, dom (use a jsdom document), fetch handler, globals, referrer, noStorage */
  constructor(device, opts = {}) {
    this.device = device; this.clock = device.clock; this.opts = opts;
    this.log = []; this.tab = opts.tab || device.tab();
    this.url = new URL(opts.url || 'https://www.example.com/');
    this.requests = []; this.navigations = []; this.consoleLog = []; this.timerErrors = [];
    this.fetchHandler = opts.fetch || (() => ({ status: 200, body: '{}' }));
    this.rng = new Rng('page' + (opts.seed ?? device.rng.u32()));
    this.closed = false; this.hist = [this.url.href]; this.histIdx = 0;
    this.build();
  }
  onTimerError(e) { this.timerErrors.push(e); }
  get origin() { return this.url.origin; }
  build() {
    const page = this; const opts = this.opts; const clock = this.clock; const device = this.device;
    const win = new EventTargetLite(); this.win = win;
    const box = {};
    const timer = (kind) => (fn, ms, ...args) => { if (page.closed) return 0; return clock.add(page, kind, fn, ms, args); };
    const clear = (id) => clock.remove(id);
    Object.assign(box, {
      setTimeout: timer('timeout'), setInterval: timer('interval'), clearTimeout: clear, clearInterval: clear,
      requestAnimationFrame: (fn) => timer('raf')(() => fn(clock.now), 16), cancelAnimationFrame: clear,
      requestIdleCallback: (fn) => timer('idle')(() => fn({ timeRemaining: () => 10, didTimeout: false }), 1), cancelIdleCallback: clear,
      queueMicrotask: (fn) => { Promise.resolve().then(fn); },
      URL, URLSearchParams, TextEncoder, TextDecoder, AbortController, AbortSignal, btoa, atob, structuredClone,
      console: Object.fromEntries(['log', 'info', 'warn', 'error', 'debug', 'trace'].map((k) => [k, (...a) => { page.consoleLog.push([k, a]); }])),
      navigator: { userAgent: 'Mozilla/5.0 (X11; Linux x86_64) Chrome/120', language: 'en-US', languages: ['en-US'], cookieEnabled: true, sendBeacon: (u, b) => { page.requests.push({ t: clock.now, url: u, method: 'BEACON', body: b }); return true; } },
      performance: { now: () => clock.now - 1_700_000_000_000, timeOrigin: 1_700_000_000_000, getEntriesByType: () => [], mark() {}, measure() {} },
      crypto: { getRandomValues: (a) => { for (let i = 0; i < a.length; i++) a[i] = page.rng.u32(); return a; }, randomUUID: () => { let s = ''; for (let i = 0; i < 32; i++) s += page.rng.int(0, 15).toString(16); return `${s.slice(0, 8)}-${s.slice(8, 12)}-4${s.slice(13, 16)}-a${s.slice(17, 20)}-${s.slice(20)}`; } },
      innerHeight: 800, innerWidth: 1200, scrollY: 0, scrollX: 0, opener: null, frameElement: null,
    });
    box.fetch = (url, init = {}) => page.doFetch(url, init);
    box.addEventListener = win.addEventListener.bind(win); box.removeEventListener = win.removeEventListener.bind(win);
    box.dispatchEvent = (ev) => { win.dispatch(ev.type, ev); return true; };
    const loc = {}; this.loc = loc;
    const part = (k) => ({ get: () => page.url[k], set: (v) => { const u = new URL(page.url.href); u[k] = v; page.navigate(u.href, 'assign-' + k); }, enumerable: true, configurable: true });
    for (const k of ['search', 'hash', 'host', 'hostname', 'port', 'protocol', 'pathname']) Object.defineProperty(loc, k, part(k));
    Object.defineProperty(loc, 'href', { get: () => page.url.href, set: (v) => page.navigate(v, 'href'), enumerable: true });
    Object.defineProperty(loc, 'origin', { get: () => page.url.origin, enumerable: true });
    loc.replace = (v) => page.navigate(v, 'replace'); loc.assign = (v) => page.navigate(v, 'assign'); loc.reload = () => page.navigate(page.url.href, 'reload'); loc.toString = () => page.url.href;
    Object.defineProperty(box, 'location', { get: () => loc, set: (v) => page.navigate(v, 'href'), enumerable: true, configurable: true });
    const history = { state: null, length: 1,
      pushState(s, t, u) { if (u !== undefined && u !== null) { const n = new URL(u, page.url.href); if (n.origin !== page.url.origin) throw new Error('SecurityError'); page.url = n; } this.state = s; page.hist = page.hist.slice(0, page.histIdx + 1).concat(page.url.href); page.histIdx++; page.log.push({ t: clock.now, type: 'nav', op: 'push', url: page.url.href }); },
      replaceState(s, t, u) { if (u !== undefined && u !== null) { const n = new URL(u, page.url.href); if (n.origin !== page.url.origin) throw new Error('SecurityError'); page.url = n; } this.state = s; page.hist[page.histIdx] = page.url.href; page.log.push({ t: clock.now, type: 'nav', op: 'replaceState', url: page.url.href }); },
      back() { page.go(-1); }, forward() { page.go(1); }, go(n) { page.go(n); } };
    box.history = history; this.history = history;
    if (!opts.noStorage) {
      const ls = makeStorage('local', device.localFor(page.origin), page); const ss = makeStorage('session', page.tab.sessionFor(page.origin), page);
      const acc = (kind, s) => ({ get: () => { const f = device.storageFault; const e = { t: clock.now, type: 'storage', area: kind, op: 'access' }; if (f && f(e, page)) throw new Error('SecurityError: access to storage denied'); return s; }, configurable: true, enumerable: true });
      Object.defineProperty(box, 'localStorage', acc('local', ls)); Object.defineProperty(box, 'sessionStorage', acc('session', ss));
    }
    if (!opts.noDocument) this.buildDocument(box);
    Object.assign(box, opts.globals || {});
    // an ordinary global object: the interceptors of a contextified one swallow what accessors throw
    this.ctx = vm.createContext(vm.constants.DONT_CONTEXTIFY);
    this.g = vm.runInContext('globalThis', this.ctx);
    const g = this.g; Object.defineProperties(g, Object.getOwnPropertyDescriptors(box)); if (this.doc) g.document.defaultView = g;
    g.window = g; g.self = g; g.top = g; g.parent = g; 
    vm.runInContext(`(function(now, rnd){ const R = Date; class D extends R { constructor(...a){ if (a.length===0) super(now()); else super(...a); } static now(){ return now(); } } globalThis.Date = D; Math.random = rnd; })`, this.ctx)(() => clock.now, () => page.rng.f());
    vm.runInContext(`class Event { constructor(type, o){ this.type = type; Object.assign(this, o||{}); } } ; globalThis.Event = globalThis.Event || Event;
      class CustomEvent extends Event {}; globalThis.CustomEvent = globalThis.CustomEvent || CustomEvent; class PopStateEvent extends Event {}; globalThis.PopStateEvent = globalThis.PopStateEvent || PopStateEvent; class MessageEvent extends Event {}; globalThis.MessageEvent = globalThis.MessageEvent || MessageEvent;`, this.ctx);
  }
  cookieDesc() {
    const page = this; const device = this.device;
    const secure = () => page.url.protocol === 'https:';
    return {
      get: () => { const e = { t: page.clock.now, type: 'cookie', op: 'get' }; page.log.push(e); if (device.cookieFault && device.cookieFault(e, page)) { e.failed = true; throw new Error('SecurityError: cookies denied'); } return device.jar.get(page.url.hostname, page.url.pathname, secure()); },
      set: (v) => { const e = { t: page.clock.now, type: 'cookie', op: 'set', value: String(v), key: String(v).split('=')[0].trim() }; page.log.push(e); if (device.cookieFault && device.cookieFault(e, page)) { e.failed = true; throw new Error('SecurityError: cookies denied'); } device.jar.currentPage = page; device.jar.set(page.url.hostname, v, page.url.pathname, secure()); },
      configurable: true, enumerable: true };
  }
  buildDocument(box) {
    const page = this; const opts = this.opts;
    if (opts.dom) {
      const J = JSDOM(); const dom = new J(opts.html || '<!DOCTYPE html><html><head></head><body></body></html>', { url: this.url.href });
      this.dom = dom; const w = dom.window; const d = w.document;
      for (const [k, v] of Object.entries({ cookie: page.cookieDesc(), referrer: { get: () => opts.referrer || '', configurable: true }, readyState: { get: () => page.readyState || 'complete', configurable: true }, hidden: { get: () => !!page.hidden, configurable: true }, visibilityState: { get: () => (page.hidden ? 'hidden' : 'visible'), configurable: true } })) Object.defineProperty(d, k, v);
      let sheets = []; Object.defineProperty(d, 'adoptedStyleSheets', { get: () => sheets, set: (v) => { sheets = [...v]; page.log.push({ t: page.clock.now, type: 'sheets', n: sheets.length, css: sheets.map((s) => s.css) }); }, configurable: true });
      for (const k of ['Node', 'Element', 'HTMLElement', 'HTMLIFrameElement', 'HTMLScriptElement', 'HTMLAnchorElement', 'DocumentFragment', 'MutationObserver', 'Event', 'CustomEvent', 'MouseEvent', 'FocusEvent', 'KeyboardEvent', 'DOMParser', 'NodeFilter', 'CSS', 'Document', 'ShadowRoot']) if (w[k]) box[k] = w[k];
      box.getComputedStyle = (el) => w.getComputedStyle(el); box.document = d;
      class Sheet { constructor() { this.css = ''; } replaceSync(c) { this.css = c; } replace(c) { this.css = c; return Promise.resolve(this); } }
      box.CSSStyleSheet = Sheet; try { Object.defineProperty(w, 'CSSStyleSheet', { value: Sheet, configurable: true, writable: true }); } catch { /* ignore */ }
      page.observers = [];
      box.IntersectionObserver = class { constructor(cb, o) { this.cb = cb; this.options = o || {}; this.targets = new Set(); this.dead = false; page.observers.push(this); } observe(e) { this.targets.add(e); } unobserve(e) { this.targets.delete(e); } disconnect() { this.dead = true; this.targets.clear(); } takeRecords() { return []; } };
      return;
    }
    const doc = new EventTargetLite(); this.doc = doc;
    const mk = (tag) => ({ tagName: String(tag).toUpperCase(), style: {}, children: [], attrs: {}, nodeType: 1, setAttribute(k, v) { this.attrs[k] = String(v); }, getAttribute(k) { return this.attrs[k] ?? null; }, appendChild(c) { this.children.push(c); c.parentNode = this; page.log.push({ t: page.clock.now, type: 'append', tag: c.tagName, src: c.src || c.attrs?.src, node: c }); return c; }, insertBefore(c) { return this.appendChild(c); }, removeChild(c) { this.children = this.children.filter((x) => x !== c); c.parentNode = null; return c; }, remove() { this.parentNode?.removeChild(this); }, addEventListener(t, f) { (this.ls ||= {})[t] = [...(this.ls[t] || []), f]; }, removeEventListener() {}, fire(t, ev) { for (const f of (this.ls || {})[t] || []) f(ev || { type: t }); }, querySelector: () => null, querySelectorAll: () => [], contains: () => false, classList: { add() {}, remove() {}, contains: () => false }, attachShadow() { return mk('#shadow'); }, cloneNode() { return mk(tag); } });
    this.mk = mk;
    const d = { nodeType: 9, title: 'T', head: mk('head'), body: mk('body'), documentElement: mk('html'), createElement: (t) => mk(t), createTextNode: (t) => ({ nodeType: 3, data: t }), createElementNS: (n, t) => mk(t), querySelector: (s) => { if (s.includes('nonce') && page.nonce) return page.nonce; return null; }, querySelectorAll: () => [], getElementById: (id) => [...(d.body?.children || []), ...d.head.children].find((c) => c.id === id) || null, getElementsByTagName: () => [], addEventListener: doc.addEventListener.bind(doc), removeEventListener: doc.removeEventListener.bind(doc), dispatchEvent: (e) => { doc.dispatch(e.type, e); return true; }, adoptedStyleSheets: [] };
    let sheets = []; Object.defineProperty(d, 'adoptedStyleSheets', { get: () => sheets, set: (v) => { sheets = [...v]; page.log.push({ t: page.clock.now, type: 'sheets', n: sheets.length, css: sheets.map((s) => s.css) }); } });
    Object.defineProperty(d, 'cookie', page.cookieDesc());
    Object.defineProperty(d, 'referrer', { get: () => opts.referrer || '' }); Object.defineProperty(d, 'readyState', { get: () => page.readyState || 'complete' }); Object.defineProperty(d, 'hidden', { get: () => !!page.hidden }); Object.defineProperty(d, 'visibilityState', { get: () => (page.hidden ? 'hidden' : 'visible') });
    Object.defineProperty(d, 'location', { get: () => page.loc, set: (v) => page.navigate(v, 'href') });
    d.defaultView = box; box.document = d;
    class Sheet { constructor() { this.css = ''; } replaceSync(c) { this.css = c; } }
    box.CSSStyleSheet = Sheet;
    class Node {} ; Object.assign(Node, { ELEMENT_NODE: 1, TEXT_NODE: 3, DOCUMENT_NODE: 9, DOCUMENT_FRAGMENT_NODE: 11 }); Node.prototype.removeChild = function (n) { return n; };
    class Element extends Node {} ; class HTMLElement extends Element {}
    box.Node = Node; box.Element = Element; box.HTMLElement = HTMLElement;
    box.MutationObserver = class { constructor(cb) { this.cb = cb; } observe() {} disconnect() {} takeRecords() { return []; } };
    box.IntersectionObserver = class { constructor(cb) { this.cb = cb; } observe() {} unobserve() {} disconnect() {} };
    box.getComputedStyle = () => ({ display: 'block', visibility: 'visible' });
  }
  go(n) { const i = this.histIdx + n; if (i < 0 || i >= this.hist.length) return; this.histIdx = i; this.url = new URL(this.hist[i]); this.log.push({ t: this.clock.now, type: 'nav', op: 'popstate', url: this.url.href }); const ev = new this.g.PopStateEvent('popstate', { state: null }); this.win.dispatch('popstate', ev); }
  navigate(v, how) {
    const target = new URL(String(v), this.url.href).href;
    const e = { t: this.clock.now, type: 'navigate', how, url: target }; this.log.push(e); 
    if (this.opts.navigationThrows) { e.failed = true; throw new Error('navigation blocked'); }
    this.navigations.push(e);
  }
  doFetch(url, init) {
    const headers = {}; const h = init.headers || {}; for (const k of Object.keys(h)) headers[k] = h[k];
    const r = { t: this.clock.now, type: 'fetch', url: String(url), method: init.method || 'GET', headers, body: init.body, n: this.requests.length };
    this.requests.push(r); this.log.push(r);
    const page = this;
    return new (this.g.Promise)((resolve, reject) => {
      let plan;
      try { plan = page.fetchHandler(r, page); } catch (e) { plan = { error: String(e) }; }
      r.plan = plan;
      const fin = (p) => {
        r.doneAt = page.clock.now;
        if (p.error) { r.outcome = 'error'; reject(new page.g.TypeError(p.error)); return; }
        r.outcome = p.status ?? 200;
        const body = typeof p.body === 'string' ? p.body : JSON.stringify(p.body ?? {});
        const status = p.status ?? 200;
        const later = (fn) => new page.g.Promise((a, b) => { if (p.bodyDelay === Infinity) return; if (p.bodyDelay) page.clock.add(page.opts.netOwner || null, 'net', () => fn(a, b), p.bodyDelay, []); else fn(a, b); });
        resolve({ status, ok: status >= 200 && status < 300, headers: { get: () => null }, text: () => later((a) => a(body)), json: () => later((a, b) => { try { a(page.json(body, true)); } catch (e) { b(e); } }) });
      };
      const run = (p) => { if (p.hang) { r.outcome = 'hang'; return; } if (p.delay !== undefined) page.clock.add(page.opts.netOwner || null, 'net', () => fin(p), p.delay, []); else fin(p); };
      if (plan && typeof plan.then === 'function') plan.then(run, (e) => fin({ error: String(e) })); else run(plan || {});
    });
  }
  /** Make a value of the page's own realm out of a JSON-able value. */
  json(v, isText) { return this.g.JSON.parse(isText ? v : JSON.stringify(v)); }
  load(bundle) { bundle.script.runInContext(this.ctx); return this.g.__SUT; }
  eval(code) { return vm.runInContext(code, this.ctx); }
  /** Page goes away: timers die, in-flight responses are dropped. */
  close() { this.closed = true; this.clock.dropOwner(this); if (this.dom) { try { this.dom.window.close(); } catch { /* ignore */ } } }
  localMap() { return this.device.localFor(this.origin); }
  sessionMap() { return this.tab.sessionFor(this.origin); }
}
