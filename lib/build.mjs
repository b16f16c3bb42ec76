// Bundles the current working tree of the code under test (TypeScript sources, not dist) in memory.
import { createRequire } from 'node:module';
import path from 'node:path';
import vm from 'node:vm';
import fs from 'node:fs';
export const REPO = process.env.VERIF_REPO || '/repo';
const HERE = path.dirname(new URL(import.meta.url).pathname);
// The demonstrations under seeded/ carry this file bundled, with the stub beside it.
const STUB = [path.join(HERE, 'dom-mutator.ts'), path.resolve(HERE, '../stubs/dom-mutator.ts')].find((f) => fs.existsSync(f));
const req = createRequire(import.meta.url);
function loadEsbuild() {
  for (const p of ['/opt/veriftools/node/node_modules/esbuild', path.join(REPO, 'node_modules/esbuild')])
    try { return req(p); } catch { /* next */ }
  throw new Error('esbuild not found');
}
export const repoRequire = createRequire(path.join(REPO, 'package.json'));
const PK = path.join(REPO, 'packages');
export const SRC = {
  core: path.join(PK, 'experiment-core/src'),
  browser: path.join(PK, 'experiment-browser/src'),
  connector: path.join(PK, 'analytics-connector/src'),
  segment: path.join(PK, 'plugin-segment/src'),
  tag: path.join(PK, 'experiment-tag/src'),
};
const alias = {
  name: 'workspace',
  setup(b) {
    const map = {
      '@amplitude/experiment-core': path.join(SRC.core, 'index.ts'),
      '@amplitude/experiment-js-client': path.join(SRC.browser, 'index.ts'),
      '@amplitude/analytics-connector': path.join(SRC.connector, 'index.ts'),
      'dom-mutator': STUB,
      'dom-mutator/dist/types': STUB,
    };
    b.onResolve({ filter: /^(@amplitude\/|dom-mutator)/ }, (a) => {
      if (map[a.path]) return { path: map[a.path] };
      // deep imports such as @amplitude/experiment-core/src/x
      const m = a.path.match(/^@amplitude\/(experiment-core|experiment-js-client|analytics-connector)\/(.*)$/);
      if (m) {
        const dir = { 'experiment-core': 'experiment-core', 'experiment-js-client': 'experiment-browser', 'analytics-connector': 'analytics-connector' }[m[1]];
        for (const s of ['', '.ts', '/index.ts', '.json']) {
          const p = path.join(PK, dir, m[2].replace(/^dist\/.*$/, 'src/index.ts')) + s;
          if (fs.existsSync(p) && fs.statSync(p).isFile()) return { path: p };
        }
      }
      return undefined;
    });
    b.onResolve({ filter: /^@src\// }, (a) => {
      const m = a.path.match(/^@src\/([a-z]+)\/(.*)$/);
      const base = path.join(SRC[m[1]], m[2]);
      for (const s of ['', '.ts', '/index.ts']) if (fs.existsSync(base + s) && fs.statSync(base + s).isFile()) return { path: base + s };
      return { path: base + '.ts' };
    });
  },
};
/** entry: TypeScript source using '@src/<pkg>/<path>' imports. Returns a vm.Script that sets global __SUT. */
export async function bundle(entry, resolvePkg = 'experiment-tag') {
  const esbuild = loadEsbuild();
  const r = await esbuild.build({
    stdin: { contents: entry, resolveDir: path.join(PK, resolvePkg), loader: 'ts', sourcefile: 'entry.ts' },
    bundle: true, write: false, format: 'iife', globalName: '__SUT', platform: 'browser', target: 'es2020',
    plugins: [alias], logLevel: 'silent', charset: 'utf8', keepNames: false,
    nodePaths: [path.join(REPO, 'node_modules')], define: { 'process.env.NODE_ENV': '"production"' },
    mainFields: ['module', 'main'],
  });
  const code = r.outputFiles[0].text + '\n;globalThis.__SUT = __SUT;';
  const script = new vm.Script(code, { filename: 'sut.js' });
  return { code, script };
}
