import { Page, Device } from './env.mjs';
/** Load a bundle once per worker in a bare context. */
const cache = new WeakMap();
export function bare(bundle) { if (!cache.has(bundle)) cache.set(bundle, new Page(new Device(), { noDocument: true, noStorage: true }).load(bundle)); return cache.get(bundle); }
export const CORE_ENTRY = `export * from '@amplitude/experiment-core'; export { hash32x86 } from '@src/core/evaluation/murmur3';`;
