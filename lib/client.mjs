import { Page, Device } from './env.mjs';
import * as G from '../models/flags.gen.mjs';
export const BROWSER_ENTRY = `export * from '@amplitude/experiment-js-client'; export { AnalyticsConnector } from '@amplitude/analytics-connector'; export { TimeoutError, FetchError } from '@amplitude/experiment-core';`;
export const b64 = (s) => Buffer.from(String(s), 'base64url').toString('utf8');
export const kind = (req) => (/\/sdk\/v2\/vardata/.test(req.url) ? 'vardata' : /\/sdk\/v2\/flags/.test(req.url) ? 'flags' : 'other');
export const storeKey = (instance, apiKey, what = '', web = false) => `amp-exp-${instance}${web ? '-web' : ''}-${apiKey.slice(-6)}${what}`;
export const KEYS = ['flag-a', 'flag-b', 'flag-c', 'flag-d', 'new checkout', 'ключ'];
export const API = 'client-0123456789abcdef';
/** A variant as the evaluation server sends it. */
export function serverVariant(r, o = {}) {
  const k = r.pick(['on', 'off', 'treatment', 'control', 'A', 'ünï']);
  const v = { key: k }; if (r.bool(0.85)) v.value = r.bool(0.8) ? k : 'value-' + k; if (r.bool(0.35)) v.payload = r.pick([1, 'p', { a: [1, null, { b: 'c' }] }, [1, 2], true, 0, '']);
  if (r.bool(0.6)) { v.metadata = {}; if (r.bool(o.def ?? 0.4)) v.metadata.default = r.bool(0.85); if (r.bool(0.4)) v.metadata.experimentKey = 'exp-' + r.int(1, 3); if (r.bool(0.2)) v.metadata.trackExposure = r.bool(); if (r.bool(0.2)) v.metadata.segmentName = 'All Other Users'; if (o.web && r.bool(0.5)) v.metadata.deliveryMethod = 'web'; if (r.bool(0.08)) v.metadata.exposureEvent = 'custom_exposure'; }
  return v;
}
export const serverVariants = (r, keys = KEYS, p = 0.5, o) => Object.fromEntries(r.subset(keys, p).map((k) => [k, serverVariant(r, o)]));
/** Initial or stored variants in any supported shape. */
export const storedShape = (r) => r.weighted([[2, () => r.pick(['on', 'off', 'treatment'])], [1, () => ({ value: r.pick(['on', 'x', 'ON', 'Blue x']) })], [1, () => ({ value: 'on', payload: { a: 1 } })], [3, () => { const v = serverVariant(r); if (r.bool(0.4)) v.expKey = 'exp-k'; return v; }]])();
export const initialVariants = (r, keys = KEYS, p = 0.4) => Object.fromEntries(r.subset(keys, p).map((k) => [k, storedShape(r)]));
/** A flag configuration, local or remote, sometimes dependent on another flag or on the user. */
export function flagConfig(r, key, others = []) {
  const variants = { off: { key: 'off', metadata: { default: true } }, on: { key: 'on', value: 'on', payload: r.bool(0.3) ? { x: 1 } : undefined }, treatment: { key: 'treatment', value: 'treatment' } };
  if (r.bool(0.3)) variants.on.metadata = { experimentKey: 'exp-1' };
  const segments = [];
  if (r.bool(0.3)) segments.push({ conditions: [[{ selector: ['context', 'user', 'user_properties', 'plan'], op: r.pick(['is', 'is not']), values: ['pro'] }]], variant: 'treatment', metadata: { segmentName: 'pro' } });
  if (r.bool(0.3)) segments.push({ bucket: { selector: ['context', 'user', r.pick(['user_id', 'device_id'])], salt: r.str(3, 6), allocations: [{ range: [0, 100], distributions: [{ variant: 'on', range: [0, Math.floor(G.MAXD / 2)] }, { variant: 'treatment', range: [Math.floor(G.MAXD / 2), G.MAXD] }] }] }, variant: 'off' });
  const deps = others.length && r.bool(0.3) ? [r.pick(others)] : null;
  if (deps) segments.unshift({ conditions: [[{ selector: ['result', deps[0], 'key'], op: 'is', values: ['on', 'treatment'] }]], variant: 'on', metadata: { segmentName: 'dep' } });
  if (r.bool(0.1)) segments.push({ conditions: [[{ selector: ['context', 'page', 'url'], op: 'contains', values: ['/shop'] }]], variant: 'on' });
  if (r.bool(0.1)) segments.push({ conditions: [[{ selector: ['context', 'groups', 'org', 'group_name'], op: 'is', values: ['acme'] }]], variant: 'on' });
  if (r.bool(0.7)) segments.push({ variant: r.pick(['off', 'on', 'off']), metadata: { segmentName: 'All Other Users' } });
  const f = { key, variants, segments, metadata: { evaluationMode: r.pick(['local', 'local', 'remote']), flagVersion: r.int(1, 50) } };
  if (r.bool(0.1)) delete f.metadata; else { if (r.bool(0.2)) f.metadata.experimentKey = 'exp-f'; if (r.bool(0.1)) f.metadata.trackExposure = false; if (r.bool(0.1)) f.metadata.deliveryMethod = 'web'; }
  if (deps) f.dependencies = deps; return JSON.parse(JSON.stringify(f));
}
export function flagConfigs(r, keys = KEYS, p = 0.5) { const out = []; for (const k of r.subset(keys, p)) out.push(flagConfig(r, k, out.map((f) => f.key))); return r.shuffle(out); }
export function user(r) {
  const u = {};
  if (r.bool(0.75)) u.user_id = r.pick(['u1', 'u2', 'ü@x.io', 'u-' + r.int(0, 99)]); if (r.bool(0.6)) u.device_id = 'd' + r.int(0, 9);
  if (r.bool(0.7)) u.user_properties = Object.fromEntries(r.subset(['plan', 'n', 'list', 'obj', 'emoji'], 0.5).map((k) => [k, { plan: () => r.pick(['pro', 'free']), n: () => r.int(0, 9), list: () => ['a', 'b'], obj: () => ({ deep: [1, { x: 'y' }] }), emoji: () => '🎉 日本' }[k]()]));
  if (r.bool(0.3)) u.country = r.pick(['DE', 'US', '']); if (r.bool(0.2)) u.cookie = { sid: 'secret' };
  if (r.bool(0.2)) { u.groups = { org: [r.pick(['acme', 'umbrella'])] }; if (r.bool()) u.group_properties = { org: { acme: { tier: 'gold' } } }; }
  return u;
}
/** A page with the SDK loaded whose network is answered by `server(kind, request)`. */
export function sdkPage(t, o = {}) {
  const device = o.device || new Device({ seed: t.rng.u32() });
  const page = device.page({ url: o.url || 'https://www.example.com/shop?a=1', fetch: (req) => (o.server ? o.server(kind(req), req) : { status: 200, body: kind(req) === 'flags' ? '[]' : '{}' }), ...(o.page || {}) });
  const sut = page.load(t.sut.browser);
  return { device, page, sut, clock: device.clock };
}
export const settled = (p) => { const s = { done: false }; Promise.resolve(p).then((v) => { s.done = true; s.value = v; }, (e) => { s.done = true; s.error = e; }); return s; };
export const recLogger = () => { const l = []; return { lines: l, ...Object.fromEntries(['error', 'warn', 'info', 'debug', 'verbose'].map((k) => [k, (...a) => l.push([k, ...a])])) }; };
