#!/usr/bin/env node
// node tools/mutants.mjs <ID[,ID]> <file under /repo> [--lines a-b] [--n N]  — planted one-token changes in a scratch copy; prints the ones no named check notices.
import fs from 'node:fs'; import path from 'node:path'; import { execFileSync, spawn } from 'node:child_process'; import { createRequire } from 'node:module';
const req = createRequire('/opt/veriftools/node/node_modules/x.js'); const ts = req('typescript');
const BASE = process.env.MUT_BASE || '/repo'; const [ids, file] = process.argv.slice(2); const opt = (n, d) => { const i = process.argv.indexOf(n); return i < 0 ? d : process.argv[i + 1]; };
const src = fs.readFileSync(path.join(BASE, file), 'utf8'); const sf = ts.createSourceFile('x.ts', src, ts.ScriptTarget.ES2020, true); const K = ts.SyntaxKind; const muts = [];
const line = (p) => sf.getLineAndCharacterOfPosition(p).line + 1; const [la, lb] = opt('--lines', '1-99999').split('-').map(Number);
const add = (a, b, to, why) => { const l = line(a); if (l >= la && l <= lb) muts.push({ a, b, to, why, l }); };
const BIN = { [K.EqualsEqualsEqualsToken]: '!==', [K.ExclamationEqualsEqualsToken]: '===', [K.EqualsEqualsToken]: '!=', [K.ExclamationEqualsToken]: '==', [K.LessThanToken]: '<=', [K.LessThanEqualsToken]: '<', [K.GreaterThanToken]: '>=', [K.GreaterThanEqualsToken]: '>', [K.AmpersandAmpersandToken]: '||', [K.BarBarToken]: '&&', [K.PlusToken]: '-', [K.MinusToken]: '+', [K.AsteriskToken]: '/', [K.SlashToken]: '*', [K.QuestionQuestionToken]: '&&' };
const visit = (n) => {
  if (n.kind === K.InterfaceDeclaration || n.kind === K.TypeAliasDeclaration || n.kind === K.ImportDeclaration || ts.isTypeNode(n)) return;
  const s = n.getStart(sf), e = n.getEnd(); const txt = src.slice(s, e);
  if (ts.isBinaryExpression(n) && BIN[n.operatorToken.kind]) add(n.operatorToken.getStart(sf), n.operatorToken.getEnd(), BIN[n.operatorToken.kind], 'op');
  if ((ts.isIfStatement(n) || ts.isConditionalExpression(n) || ts.isWhileStatement(n))) { const c = n.expression || n.condition; add(c.getStart(sf), c.getEnd(), `!(${c.getText(sf)})`, 'negate'); if (ts.isIfStatement(n)) { add(c.getStart(sf), c.getEnd(), `(${c.getText(sf)}) && false`, 'never'); } }
  if (ts.isPrefixUnaryExpression(n) && n.operator === K.ExclamationToken) add(s, e, n.operand.getText(sf), 'unnot');
  if (ts.isNumericLiteral(n)) { add(s, e, String(Number(n.text) + 1), 'num+1'); }
  if (ts.isStringLiteral(n) && !ts.isPropertyAssignment(n.parent) && n.text.length) add(s, e, JSON.stringify(n.text + '_x'), 'str');
  if (ts.isTemplateExpression(n)) { }
  if (n.kind === K.TrueKeyword) add(s, e, 'false', 'bool'); if (n.kind === K.FalseKeyword) add(s, e, 'true', 'bool');
  if (ts.isExpressionStatement(n) && !/^super/.test(txt)) add(s, e, ';', 'drop: ' + txt.slice(0, 60).replace(/\s+/g, ' '));
  if (ts.isReturnStatement(n) && n.expression) add(n.expression.getStart(sf), n.expression.getEnd(), 'undefined as any', 'return undefined');
  if (ts.isReturnStatement(n) && !n.expression) add(s, e, ';', 'no return');
  if (ts.isSpreadAssignment(n)) add(s, e + (src[e] === ',' ? 1 : 0), '', 'drop spread ' + txt.slice(0, 40));
  if (ts.isCatchClause(n)) add(s, e, 'catch (rethrown) { throw rethrown; }', 'rethrow');
  if (ts.isCallExpression(n) && ts.isPropertyAccessExpression(n.expression) && n.expression.name.text === 'catch' && n.arguments.length) add(n.arguments[0].getStart(sf), n.arguments[0].getEnd(), '(rethrown: any) => { throw rethrown; }', 'rethrow');
  if (ts.isBreakStatement(n) || ts.isContinueStatement(n)) add(s, e, ';', 'drop ' + txt);
  ts.forEachChild(n, visit);
};
visit(sf);
let list = opt('--why') ? muts.filter((m) => m.why.startsWith(opt('--why'))) : muts; const N = Number(opt('--n', 0)); if (N && list.length > N) { const step = list.length / N; list = Array.from({ length: N }, (_, i) => list[Math.floor(i * step)]); }
const jobs = 4; let next = 0; let caught = 0, invalid = 0; const survivors = [];
const mk = (j) => { const d = `/tmp/mutants-${process.pid}-${j}`; fs.mkdirSync(d, { recursive: true }); execFileSync('bash', ['-c', `cd ${BASE} && tar cf - --exclude=node_modules --exclude=dist --exclude=test --exclude=coverage package.json packages | tar xf - -C ${d} && ln -s /repo/node_modules ${d}/node_modules && for p in /repo/packages/*/node_modules; do [ -d $p ] && ln -s $p ${d}/packages/$(basename $(dirname $p))/node_modules; done; true`]); return d; };
const run = (id, d) => new Promise((res) => { const p = spawn('node', ['run.mjs', id, 'quick', '--jobs', '2'], { cwd: '/verif', env: { ...process.env, VERIF_REPO: d, VERIF_BUDGET_MS: opt('--budget', '30000'), VERIF_NO_EVIDENCE: '1', VERIF_HANG_MS: '20000' }, stdio: ['ignore', 'pipe', 'pipe'], detached: true }); let o = ''; p.stdout.on('data', (x) => { o += x; }); p.stderr.on('data', (x) => { o += x; }); const k = setTimeout(() => { try { process.kill(-p.pid, 'SIGKILL'); } catch {} }, 200000); p.on('exit', (c) => { clearTimeout(k); res([c, o]); }); });
await Promise.all(Array.from({ length: jobs }, async (_, j) => {
  const d = mk(j);
  while (next < list.length) {
    const m = list[next++]; fs.writeFileSync(path.join(d, file), src.slice(0, m.a) + m.to + src.slice(m.b)); let hit = null, bad = false;
    for (const id of ids.split(',')) { const [c, o] = await run(id, d); if (c === 1) { hit = id; break; } if (c === 2 && /could not run|esbuild|Transform failed|Build failed/.test(o)) { bad = true; break; } if (c === 2 || c === null) { hit = id + '?' + (c === 2 ? 'inconclusive' : 'hang'); break; } }
    if (bad) invalid++; else if (hit) { caught++; if (hit.includes('?')) survivors.push({ ...m, hit }); } else survivors.push(m);
  }
  execFileSync('rm', ['-rf', d]);
}));
console.log(`${file}: ${list.length} mutants, ${caught} noticed, ${invalid} invalid, ${survivors.length} listed:`);
const lines = src.split('\n'); for (const m of survivors.sort((a, b) => a.a - b.a)) console.log(`  ${m.l}: [${m.why}]${m.hit ? ' ' + m.hit : ''} ${src.slice(m.a, m.b).slice(0, 60).replace(/\s+/g, ' ')} -> ${m.to.slice(0, 40)}   | ${lines[m.l - 1].trim().slice(0, 80)}`);
