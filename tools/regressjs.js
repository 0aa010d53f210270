// The repository's hand-written JavaScript tests (regress/javascript), run over the document object model of lib/jrun.js (not part of any check).
const fs = require('fs'), path = require('path'), { execFileSync } = require('child_process');
const jrun = require('../lib/jrun.js');
const ts = require('/opt/veriftools/node/node_modules/typescript');
const base = { ts, transpile: s => ({ js: ts.transpileModule(s, { compilerOptions: { target: 'ES2022', module: 'CommonJS' } }).outputText, errs: [] }) };
const cmds = {}; jrun(cmds, base);
function parse(s) { // well-formed fragments only
  const st = [{ kids: [] }];
  for (const m of s.matchAll(/<!--[^]*?-->|<\/\s*([\w-]+)\s*>|<([\w-]+)((?:\s+[\w-]+(?:="[^"]*")?)*)\s*(\/?)>|([^<]+)/g)) {
    if (m[5] !== undefined) st[st.length - 1].kids.push(m[5]);
    else if (m[1]) st.pop();
    else if (m[2]) {
      const a = {}; let cls = [];
      for (const x of m[3].matchAll(/([\w-]+)(?:="([^"]*)")?/g)) if (x[1] === 'class') cls = x[2].split(/\s+/).filter(y => y); else a[x[1]] = x[2] || '';
      const e = { tag: m[2], cls, attrs: a, kids: [] }; st[st.length - 1].kids.push(e);
      if (!m[4] && !['input', 'br'].includes(m[2])) st.push(e);
    }
  }
  return st[0].kids;
}
module.exports = { parse };
let bad = 0, n = 0;
for (const f of fs.readdirSync('/repo/regress/javascript').filter(x => x.endsWith('.ort'))) {
  const b = '/repo/regress/javascript/' + f.slice(0, -4); if (!fs.existsSync(b + '.ts')) continue;
  const src = execFileSync('/repo/ort-javascript', ['-S', '/repo', b + '.ort'], { encoding: 'utf8' });
  const t = base.transpile(src + fs.readFileSync(b + '.ts', 'utf8')).js;
  n++;
  const got = jrun.run(t, parse(fs.readFileSync(b + '.xml', 'utf8'))), want = parse(fs.readFileSync(b + '.result', 'utf8'));
  const k = x => JSON.stringify(x, (a, v) => v && typeof v === 'object' && !Array.isArray(v) ? Object.fromEntries(Object.entries(v).sort()) : v);
  const tidy = l => { while (typeof l[l.length - 1] === 'string' && !l[l.length - 1].trim()) l.pop(); return l; };
  if (k(tidy(got)) !== k(tidy(want))) { bad++; console.log(f, '\n', k(got), '\n', k(want)); }
}
for (const f of fs.readdirSync('/repo/regress/javascript/internal').filter(x => x.endsWith('.ts') && !x.includes('runner'))) {
  const src = fs.readFileSync('/repo/ortPrivate.ts', 'utf8'); n++;
  const t = base.transpile('namespace ortJson {\n' + src + '\n}\n' + fs.readFileSync('/repo/regress/javascript/internal/' + f, 'utf8')).js;
  try { const r = new Function('HTMLElement', 'document', t)(Object, {}); if (r !== true) { bad++; console.log(f, r); } } catch (e) { bad++; console.log(f, e.message); }
}
console.log(n, 'tests, failed:', bad);
