// Recording stand-in for the dom-mutator package (not installed in this sandbox).
// It implements the documented contract: a declarative mutation is live until reverted.
const g = globalThis as any;
export interface ElementRecord { attributes?: any; element?: any }
export type MutationController = { revert: () => void };
let seq = 0;
const log = (): any[] => (g.__domMutator = g.__domMutator || { live: new Map(), events: [] }).events;
function declarative(spec: any): MutationController {
  const events = log();
  const id = ++seq;
  const live = g.__domMutator.live as Map<number, any>;
  if (g.__domMutator.fail && g.__domMutator.fail(spec)) throw new Error('injected mutator failure');
  live.set(id, spec);
  events.push({ op: 'apply', id, spec });
  let reverted = false;
  return { revert: () => {
    events.push({ op: 'revert', id, spec, again: reverted });
    reverted = true;
    live.delete(id);
  } };
}
export default { declarative };
export { declarative };
export const pauseGlobalObserver = () => { log().push({ op: 'pause' }); };
export const resumeGlobalObserver = () => { log().push({ op: 'resume' }); };
export const connectGlobalObserver = () => undefined;
export const disconnectGlobalObserver = () => undefined;
