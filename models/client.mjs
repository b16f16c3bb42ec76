// Independent reference model of the Experiment client's observable state.
import * as Ev from './evaluation.mjs';
import { clone } from '../lib/util.mjs';
const nil = (v) => v === undefined || v === null;
const own = (o, k) => (o && Object.prototype.hasOwnProperty.call(o, k) ? o[k] : undefined);
/** Shape of a variant as the client exposes one the server (or an evaluated flag) sent. */
export function fromServer(ev) {
  const v = {}; if (!ev) return v;
  for (const f of ['key', 'value', 'payload', 'metadata']) if (ev[f]) v[f] = ev[f];
  if (ev.metadata && ev.metadata.experimentKey) v.expKey = ev.metadata.experimentKey;
  return v;
}
/** Shape of a variant read back from storage or given as an initial variant. */
export function fromStored(s) {
  if (typeof s === 'string') return { key: s, value: s };
  if (typeof s !== 'object' || s === null) return undefined;
  const v = {}; const k = s.key || s.value; if (k) v.key = k;
  for (const f of ['value', 'payload', 'metadata']) if (s[f]) v[f] = clone(s[f]);
  const exp = s.metadata?.experimentKey || s.expKey;
  if (exp) { v.expKey = exp; v.metadata = { ...(v.metadata || {}), experimentKey: exp }; }
  return v;
}
export const asVariant = (x) => (nil(x) ? {} : typeof x === 'string' ? { key: x, value: x } : x);
const dropNil = (o) => Object.fromEntries(Object.entries(o || {}).filter(([, v]) => !nil(v)));
/** Provider, integration and explicit user merged per field, later ones winning. */
export function mergeUser(explicit, provider, integration) {
  const m = { ...dropNil(provider), ...dropNil(integration), ...dropNil(explicit) };
  m.user_properties = { ...provider?.user_properties, ...integration?.user_properties, ...explicit?.user_properties };
  return m;
}
export function context(user, href) {
  const u = { ...user }; delete u.groups; delete u.group_properties;
  const c = { user: user.groups ? u : { ...user } }; if (href) c.page = { url: href };
  if (user.groups) {
    const g = {};
    for (const [type, names] of Object.entries(user.groups)) if (names.length && names[0]) { g[type] = { group_name: names[0] }; const p = user.group_properties?.[type]?.[names[0]]; if (p && Object.keys(p).length) g[type].group_properties = p; }
    if (Object.keys(g).length) c.groups = g;
  }
  return c;
}
export function order(flags, keys) {
  const out = []; const seen = new Set();
  const visit = (k) => { const f = own(flags, k); if (!f || seen.has(k)) return; seen.add(k); for (const d of f.dependencies || []) visit(d); out.push(f); };
  (keys || Object.keys(flags)).forEach(visit); return out;
}
export class Ref {
  constructor(o = {}) {
    this.apiKey = o.apiKey ?? 'client-abcdef123456'; this.source = o.source ?? 'localStorage';
    this.initial = Object.fromEntries(Object.entries(o.initialVariants || {}).map(([k, v]) => [k, fromStored(v)]));
    this.fallback = o.fallbackVariant; this.initialFlags = o.initialFlags || []; this.web = !!o.web;
    this.variants = {}; this.flags = {}; this.user = null; this.provider = null; this.integration = null; this.href = o.href; this.lib = o.lib;
    this.mergeInitial();
  }
  mergeInitial() { for (const f of this.initialFlags) if (!own(this.flags, f.key)) this.flags = { ...this.flags, [f.key]: f }; }
  setFlags(list) { this.flags = {}; for (const f of list) this.flags[f.key] = f; this.mergeInitial(); }
  mergedUser() { return { library: this.lib, ...mergeUser(this.user, this.provider, this.integration) }; }
  evaluate(keys) {
    const r = Ev.evaluate(context(this.mergedUser(), this.href), order(this.flags, keys)).results;
    return Object.fromEntries(Object.entries(r).map(([k, v]) => [k, fromServer(v)]));
  }
  resolve(key, inline) {
    const rungs = {
      stored: () => own(this.variants, key), initial: () => own(this.initial, key), inline: () => (nil(inline) ? undefined : asVariant(inline)),
      config: () => { const f = nil(this.fallback) ? undefined : asVariant(this.fallback); return f && Object.keys(f).length ? f : undefined; },
      local: () => own(this.evaluate([key]), key),
    };
    const walk = (names) => {
      let def = null;
      for (const n of names) {
        const v = rungs[n](); if (nil(v)) continue;
        if ((n === 'stored' || n === 'local') && v.metadata?.default) { def = { variant: v, rung: n, hasDefault: true }; continue; }
        return { variant: v, rung: n, hasDefault: !!def };
      }
      return def || { variant: undefined, rung: null, hasDefault: false };
    };
    const flag = own(this.flags, key); const local = flag?.metadata?.evaluationMode === 'local';
    let s = local ? null : walk(this.source === 'initialVariants' ? ['initial', 'stored', 'inline', 'config'] : ['stored', 'inline', 'initial', 'config']);
    const primaryInitial = s && s.rung === 'initial' && this.source === 'initialVariants';
    if (local || (flag && !s.variant)) s = walk(['local', 'inline', 'initial', 'config']);
    s.fallback = !s.rung || s.rung === 'inline' || s.rung === 'config' || (s.rung === 'initial' && !primaryInitial);
    return s;
  }
  variant(key, inline) { if (!this.apiKey) return {}; return this.resolve(key, inline).variant || {}; }
  all() {
    if (!this.apiKey) return {};
    const ev = Object.fromEntries(Object.entries(this.evaluate()).filter(([k]) => this.flags[k]?.metadata?.evaluationMode === 'local'));
    return this.source === 'initialVariants' ? { ...this.variants, ...this.initial, ...ev } : { ...this.initial, ...this.variants, ...ev };
  }
  /** The exposure that showing `key` must report, or null. */
  exposure(key, inline) {
    const s = this.resolve(key, inline); const v = s.variant;
    if (v?.metadata && !nil(v.metadata.trackExposure) && !v.metadata.trackExposure) return null;
    if (s.fallback && !s.hasDefault) return null;
    const e = { flag_key: key };
    if (v?.expKey) e.experiment_key = v.expKey;
    if (!s.fallback && !v?.metadata?.default && (v?.key || v?.value)) e.variant = v.key || v.value;
    if (v?.metadata) e.metadata = clone(v.metadata);
    return e;
  }
  /** A successful response to fetch. */
  fetched(results, flagKeys) {
    const got = Object.fromEntries(Object.entries(results).map(([k, v]) => [k, fromServer(v)]));
    if (!flagKeys || !flagKeys.length) this.variants = got;
    else { const next = { ...this.variants }; for (const k of flagKeys) if (!own(got, k)) delete next[k]; this.variants = { ...next, ...got }; }
  }
}
