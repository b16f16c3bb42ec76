#!/usr/bin/env node
// node tools/trybugs.mjs <bugs.mjs> [--only ID] — tries hand-written changes ([id, 'C01,C02', [[file under packages/, old, new], …]]) in scratch copies; prints which checks notice them.
import fs from 'node:fs'; import path from 'node:path'; import { execFileSync, spawn } from 'node:child_process';
const BASE = process.env.MUT_BASE || '/repo'; const only = process.argv.indexOf('--only'); const bugs = (await import(path.resolve(process.argv[2]))).default.filter((b) => only < 0 || b[0].startsWith(process.argv[only + 1]));
const read = (f) => fs.readFileSync(path.join(BASE, 'packages', f), 'utf8');
for (const [id, , edits] of bugs) for (const [f, a] of edits) { const n = read(f).split(a).length - 1; if (n !== 1) { console.log(`${id}: ${n} matches in ${f}: ${a.slice(0, 80)}`); process.exitCode = 2; } }
if (process.exitCode) process.exit();
const jobs = Number(process.env.TRY_JOBS || 4); let next = 0; const missed = [];
const mk = (j) => { const d = `/tmp/trybugs-${process.pid}-${j}`; fs.mkdirSync(d, { recursive: true }); execFileSync('bash', ['-c', `cd ${BASE} && tar cf - --exclude=node_modules --exclude=dist --exclude=test --exclude=coverage . | tar xf - -C ${d}; ln -s ${BASE}/node_modules ${d}/node_modules; for p in ${BASE}/packages/*; do [ -d $p/node_modules ] && ln -s $p/node_modules ${d}/packages/$(basename $p)/node_modules; done; true`]); return d; };
const run = (id, d) => new Promise((res) => { const p = spawn('node', ['run.mjs', id, 'quick', '--jobs', '2'], { cwd: '/verif', env: { ...process.env, VERIF_REPO: d, VERIF_NO_EVIDENCE: '1', VERIF_SEED: '1' } }); let o = ''; p.stdout.on('data', (x) => { o += x; }); p.stderr.on('data', (x) => { o += x; }); p.on('close', (c) => res([c, o])); });
await Promise.all(Array.from({ length: jobs }, async (_, j) => {
  const d = mk(j);
  while (next < bugs.length) {
    const [id, checks, edits] = bugs[next++]; const t0 = Date.now(); const saved = new Map();
    for (const [f, a, b] of edits) { const p = path.join(d, 'packages', f); const s = fs.readFileSync(p, 'utf8'); if (!saved.has(p)) saved.set(p, s); fs.writeFileSync(p, s.split(a).join(b)); }
    let said = ''; for (const c of checks.split(',')) { const [rc, o] = await run(c, d); said += ` ${c}:${rc}`; if (rc === 2) said += ' ' + o.split('\n').filter(Boolean).slice(-3).join(' | ').slice(0, 300); if (rc === 1) { said += ' ' + ((o.match(/^\s+\[([a-z0-9-:]+)\]/m) || [])[1] || ''); break; } }
    for (const [p, s] of saved) fs.writeFileSync(p, s);
    if (!/:1/.test(said)) missed.push(id); console.log(`${/:1/.test(said) ? 'caught' : 'MISSED'} ${id}${said} ${Math.round((Date.now() - t0) / 1000)}s`);
  }
  execFileSync('rm', ['-rf', d]);
}));
console.log(`${bugs.length} tried, ${missed.length} missed: ${missed.join(' ')}`);
