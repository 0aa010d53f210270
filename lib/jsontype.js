// Documents of ort-json against the types declared in ort-json.ts.
const fs = require('fs');
const { checker } = require('./nrun.js');
module.exports = function (cmds, base) {
  cmds.jsontypes = q => {
    const src = fs.readFileSync(q.lib, 'utf8');
    const t = { '/n/ort-json.ts': src, '/n/docs.ts': q.docs.map((d, i) => `const d${i}: ortJson.ortJsonConfig =\n${JSON.stringify(d)};\nvoid d${i};\n`).join('') };
    return { errs: checker(base.ts, t, { lib: ['lib.es2021.d.ts', 'lib.dom.d.ts', 'lib.dom.iterable.d.ts'], target: base.ts.ScriptTarget.ES2021 }, []) };
  };
};
