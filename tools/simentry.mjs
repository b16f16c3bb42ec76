export * from '../lib/env.mjs';
export * from '../lib/build.mjs';
export * from '../lib/util.mjs';
export { Rng } from '../lib/prng.mjs';
import { bundle } from '../lib/build.mjs';
/** Runs a demonstration: exit 0 when every expectation holds, 1 otherwise. */
export async function demo(entries, fn) {
  const t = {}; let failed = 0;
  const check = (ok, what) => { console.log((ok ? 'ok   ' : 'FAIL ') + what); if (!ok) failed++; };
  process.on('unhandledRejection', () => {});
  const wd = setTimeout(() => { console.log('FAIL demonstration hung'); process.exit(1); }, 120000);
  try { for (const [k, e] of Object.entries(entries)) t[k] = await bundle(e); await fn(t, check); } catch (e) { console.log('FAIL ' + (e && e.stack || e)); failed++; }
  clearTimeout(wd); process.exit(failed ? 1 : 0);
}
export const same = (a, b) => JSON.stringify(a) === JSON.stringify(b);
export * as tag from '../lib/tag.mjs';
export { Tab } from '../lib/tab.mjs';
