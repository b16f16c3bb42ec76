// A browser tab: documents follow each other as location changes commit, a server may rewrite addresses, and the tag runs on every page that carries it.
import { clone, turn } from './util.mjs';
import { API, configs, recorder, tagPage } from './tag.mjs';
export class Tab {
  /** o: {device, site(url) -> {flags,pages,behaviors,config} | null, server(url) -> url, latency() -> ms, user, onPage(p), dom, fetch} */
  constructor(t, o) { this.t = t; this.o = o; this.d = o.device; this.tab = this.d.tab(); this.docs = []; this.events = []; this.page = null; this.redirects = []; }
  async open(u) {
    const chain = [u]; if (this.o.server) for (let i = 0; i < 8; i++) { const n = this.o.server(chain[chain.length - 1], chain); if (!n || n === chain[chain.length - 1]) break; chain.push(n); }
    const at = chain[chain.length - 1]; if (this.page) this.leave(); const site = this.o.site ? this.o.site(at) : this.o;
    const mk = { url: at, tab: this.tab, referrer: this.docs.length ? undefined : this.o.referrer, seed: (this.o.seed ?? this.t.index) + ':' + this.docs.length, fetch: this.o.fetch || ((q) => (/flags/.test(q.url) ? { status: 200, body: (site?.flags ?? []).map((f) => ({ ...f, metadata: { ...f.metadata, evaluationMode: 'local' } })), delay: 20 } : { status: 200, body: '{}', delay: 5 })), referrer: this.o.referrer };
    const p = this.o.dom ? tagPage(this.d, mk) : this.d.page(mk); this.page = p; p.n = this.docs.length; p.asked = u; p.track = []; this.docs.push(p); p.committed = 0; p.softAsked = [];
    if (site) {
      const got = recorder(p, { user: this.o.user }); got.push = (e) => { const x = { ...e, page: p.n }; Array.prototype.push.call(got, x); this.events.push(x); return got.length; };
      this.o.onPage?.(p); p.sut = p.load(this.t.sut.tag); p.sut.initialize(API, configs(p, site), p.json(site.config ?? {})); this.o.onTag?.(p);
    } else this.o.onPage?.(p);
    await this.run(0); return p;
  }
  /** Let time pass; location changes commit on the way. */
  async run(ms) {
    const end = this.d.clock.now + ms; let quiet = 0;
    for (;;) {
      await turn(); const p = this.page;
      if (p.navigations.length > p.committed) { const e = p.navigations[p.navigations.length - 1]; if (p.due === undefined || p.navigations.length !== p.pending) { p.pending = p.navigations.length; p.due = e.t + (this.o.latency?.() ?? 0); } if (this.d.clock.now >= p.due) { this.redirects.push({ from: p.url.href, to: e.url, page: p.n, n: p.navigations.length }); p.committed = p.navigations.length; await this.open(e.url); quiet = 0; if (this.docs.length > 60) return; continue; } }
      if (this.d.clock.now >= end) { if (quiet++ < 3) continue; return; }
      quiet = 0; await this.d.clock.advance(Math.max(1, Math.min(20, end - this.d.clock.now, (p.due ?? Infinity) > this.d.clock.now ? (p.due ?? Infinity) - this.d.clock.now : 20)));
    }
  }
  leave() { const p = this.page; p.log.push({ type: 'unload' }); try { p.win.dispatch('pagehide', { type: 'pagehide' }); } catch { /* page code */ } p.close(); }
  user(type = 'pointerdown', stopped = false) { this.page.win.dispatch(type, { type, ...(stopped && type !== 'popstate' ? { stopped } : {}) }); }
}
