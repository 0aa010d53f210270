// Persistent helper: one JSON request per line, one JSON answer per line.
const path = require('path'), fs = require('fs'), vm = require('vm'), readline = require('readline');
const NM = '/opt/veriftools/node/node_modules';
const ts = require(NM + '/typescript');
const cache = {};
function transpile(src, mod) {
  const r = ts.transpileModule(src, { reportDiagnostics: true, compilerOptions: { target: 'ES2022', module: mod || 'CommonJS' } });
  const errs = (r.diagnostics || []).map(d => ts.flattenDiagnosticMessageText(d.messageText, '\n'));
  return { js: r.outputText, errs };
}
function ortJson(file) {
  const src = fs.readFileSync(file, 'utf8');
  if (cache[file] && cache[file].src === src) return cache[file].ns;
  const t = transpile(src + '\nmodule.exports = ortJson;\n');
  const m = { exports: {} };
  new Function('module', 'exports', 'require', t.js)(m, m.exports, require);
  cache[file] = { src, ns: m.exports };
  return m.exports;
}
const cmds = {
  jsonfmt(q) { const ns = ortJson(q.lib); return { out: new ns.ortJsonConfigFormat(q.json).toString() }; },
};
module.exports = { cmds, transpile, ts, NM };
for (const m of (process.argv[2] || '').split(',')) if (m) require(m)(cmds, module.exports);
const rl = readline.createInterface({ input: process.stdin, terminal: false });
let chain = Promise.resolve();
rl.on('line', l => { chain = chain.then(async () => {
  let a;
  try { const q = JSON.parse(l); a = await cmds[q.cmd](q); } catch (e) { a = { exception: String(e && e.stack || e) }; }
  process.stdout.write(JSON.stringify(a) + '\n');
}); });
