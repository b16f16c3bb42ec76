// Drives the whole Web Experiment tag (its index module) in a simulated browser page with a real DOM (jsdom).
import { turn } from './util.mjs';
export const TAG = `export * from '@src/tag/index'; export { DefaultWebExperimentClient } from '@src/tag/experiment'; export { consentGate } from '@src/tag/consent/consent-gate'; export { AnalyticsConnector } from '@amplitude/analytics-connector';`;
export const API = 'client-0123456789abcdef'; export const K10 = `EXP_${API.slice(0, 10)}`;
export const url = (op, ...values) => ({ selector: ['context', 'page', 'url'], op, values });
export const page = (id, o = {}) => ({ id, name: o.name ?? 'Page ' + id, conditions: o.conditions, trigger_type: o.type ?? 'url_change', trigger_value: o.value ?? {} });
/** A web flag whose variant is picked by a user property (when: {prop: variant}) or fixed. payloads: {variantKey: payload}. */
export function flag(key, o = {}) {
  const variants = { off: { key: 'off', metadata: { default: true } } };
  for (const [k, payload] of Object.entries(o.payloads ?? { treatment: [] })) variants[k] = { key: k, value: k, payload };
  variants.control ??= { key: 'control', value: 'control', payload: undefined };
  const segments = (o.when ?? []).map(([selector, op, values, variant]) => ({ conditions: [[{ selector: ['context', 'user', ...selector], op, values }]], variant }));
  if (o.bucket) segments.push({ bucket: { selector: ['context', 'user', o.bucket], salt: 'salt', allocations: [{ range: [0, 100], distributions: [{ variant: o.variant ?? 'treatment', range: [0, 42949673] }] }] } });
  if (!o.bucket || o.rest) segments.push({ metadata: { segmentName: 'All Other Users' }, variant: o.rest ?? o.variant ?? 'treatment' });
  return { key, metadata: { deployed: true, evaluationMode: o.mode ?? 'local', flagType: 'experiment', deliveryMethod: 'web', blockingEvaluation: o.mode === 'remote' && (o.blocking ?? true), ...(o.metadata || {}) }, segments, variants, ...(o.dependencies ? { dependencies: o.dependencies } : {}) };
}
/** IntersectionObserver over a vertical layout: elements carry data-top and data-h, the viewport is 800 high and scrolls. */
function installObserver(p) {
  const g = p.g; p.ios = new Set();
  const box = (el) => { if (!el.isConnected || p.dom.window.getComputedStyle(el).display === 'none') return null; const t = Number(el.getAttribute('data-top')); const h = Number(el.getAttribute('data-h')); return Number.isFinite(t) && el.hasAttribute('data-top') ? [t, t + h] : null; };
  const see = (el, margin) => { const b = box(el); if (!b) return { on: false, ratio: 0 }; const lo = g.scrollY; const hi = g.scrollY + 800 + margin; const o = Math.min(b[1], hi) - Math.max(b[0], lo); if (o < 0) return { on: false, ratio: 0 }; const h = b[1] - b[0]; return { on: true, ratio: h ? o / h : 1 }; };
  p.seen = (el, margin = 0) => see(el, margin);
  class IO {
    constructor(cb, o = {}) { this.cb = cb; this.th = [].concat(o.threshold ?? 0); const m = String(o.rootMargin ?? '0px').trim().split(/\s+/).map(parseFloat); this.margin = m.length >= 3 ? m[2] : m[0]; this.t = new Map(); this.q = []; p.ios.add(this); }
    observe(e) { if (this.t.has(e)) return; this.t.set(e, { i: -1, on: null }); p.frame(); }
    unobserve(e) { this.t.delete(e); this.q = this.q.filter((x) => x.target !== e); } disconnect() { this.t.clear(); this.q = []; } takeRecords() { const q = this.q; this.q = []; return q; }
    update() { for (const [e, s] of this.t) { const v = see(e, this.margin); let i = 0; if (v.on) { i = this.th.findIndex((x) => x > v.ratio); if (i < 0) i = this.th.length; } if (i !== s.i || v.on !== s.on) { s.i = i; s.on = v.on; this.q.push({ target: e, isIntersecting: v.on, intersectionRatio: v.ratio, time: p.clock.now }); } } if (this.q.length) { const q = this.takeRecords(); this.cb(g.Array.from(q), this); } }
  }
  let due = false; p.frame = () => { if (due || p.closed) return; due = true; p.clock.add(p, 'frame', () => { due = false; for (const o of p.ios) o.update(); }, 16, []); };
  g.IntersectionObserver = IO;
}
export function tagPage(d, o = {}) {
  const p = d.page({ dom: true, ...o, url: o.url ?? 'https://www.example.com/' });
  const w = p.dom.window; const g = p.g; g.AbortController = w.AbortController; g.AbortSignal = w.AbortSignal; g.Document = w.Document;
  if (o.scrollHeight !== 0) Object.defineProperty(w.document.documentElement, 'scrollHeight', { value: o.scrollHeight ?? 4800, configurable: true });
  installObserver(p);
  p.$ = (s) => w.document.querySelector(s); p.$$ = (s) => [...w.document.querySelectorAll(s)];
  p.fire = (el, type, init = {}) => el.dispatchEvent(new w[/^(click|mouse)/.test(type) ? 'MouseEvent' : /^focus/.test(type) ? 'FocusEvent' : /^key/.test(type) ? 'KeyboardEvent' : 'Event'](type, { bubbles: true, ...init }));
  p.hide = (v) => { p.hidden = v; w.document.dispatchEvent(new w.Event('visibilitychange')); };
  p.scrollTo = (y) => { g.scrollY = y; p.win.dispatch('scroll', { type: 'scroll' }); p.frame(); };
  p.settle = async (ms = 40) => { await p.clock.advance(ms); await turn(); };
  return p;
}
export const configs = (p, { flags = [], pages = {}, behaviors } = {}) => p.json({ initialFlags: JSON.stringify(flags), pageObjects: JSON.stringify(pages), ...(behaviors ? { behavioralTargetingRules: JSON.stringify(behaviors) } : {}) });
/** Load the tag's script into the page and initialize it; resolves once it runs (or stops waiting). */
export async function startTag(t, p, o = {}) {
  const sut = p.load(t.sut.tag); sut.initialize(API, configs(p, o), p.json(o.config ?? {}));
  if (o.wait !== 0) for (let i = 0; i < (o.wait ?? 40) && !p.g.webExperiment?.isRunning; i++) await p.settle(50);
  return { sut, client: p.g.webExperiment };
}
/** An integration that records what is tracked. */
export const recorder = (p, o = {}) => { const got = []; const plug = Object.assign(p.g.Object.create(null), { type: 'integration', name: 'rec', setup: () => p.g.Promise.resolve(), track: (e) => { got.push({ t: p.clock.now, url: p.url.href, type: e.eventType, props: JSON.parse(JSON.stringify(e.eventProperties ?? {})) }); return o.accept?.(got.length) ?? true; } }); if (o.user !== null) plug.getUser = () => p.json(o.user ?? {}); p.g.experimentIntegration = plug; return got; };
