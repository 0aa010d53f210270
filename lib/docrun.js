// ort-json.ts in operation: pages of documentation filled in from a configuration.
const fs = require('fs');
const { doc, KNOWN, build, ser } = require('./jrun.js').dom;
const cache = {};
module.exports = function (cmds, base) {
  function load(file) {
    const src = fs.readFileSync(file, 'utf8');
    if (cache.src === src) return cache.ns;
    const t = base.transpile(src); if (t.errs.length) throw new Error(t.errs.join('\n'));
    cache.src = src; cache.ns = new Function(...Object.keys(KNOWN), t.js + '\nreturn ortJson;')(...Object.values(KNOWN));
    return cache.ns;
  }
  cmds.docfill = q => {
    const html = doc.createElement('html'), body = doc.createElement('body'); html.appendChild(body); doc.replaceChildren(html);
    const root = build(q.tree); body.appendChild(root);
    const log = [];
    try {
      const ns = load(q.lib);
      for (const c of q.calls) {
        const o = c.prefixes === null ? new ns.ortJsonConfigFormat(q.docs[c.doc]) : new ns.ortJsonConfigFormat(q.docs[c.doc], c.prefixes);
        let e = null;
        if (typeof c.at === 'string') e = c.at; else if (c.at !== null) { e = root; for (const i of c.at) e = e.childNodes[i]; }
        let cb; const arg = c.arg === null ? [] : [c.arg];
        if (c.cbs !== null) {
          cb = {};
          for (const k of c.cbs) cb[k] = function (el, x, a) {
            const own = [el].concat(el.all()).filter(y => y.classes.some(z => z.startsWith('config-' + q.own[k] + '-name') || z === 'config-' + q.own[k] + '-doc'));
            log.push([k, x.name, x.parent === undefined ? null : x.parent, a === undefined ? null : a, own.map(y => [y.getAttribute('data-i'), y.childNodes.length && !y.children.length ? y.textContent : '', y.getAttribute('value'), y.getAttribute('href'), y.getAttribute('id')])]);
          };
        }
        let x = q.docs[c.doc].config; for (const k of c.obj) x = x[k];
        const A = cb === undefined && !arg.length ? [] : [cb, ...arg];
        const m = c.method;
        if (m === 'fill') o.fill(e, ...A);
        else if (m === 'fillByClass') o.fillByClass(e, 'blk', ...A);
        else if (m === 'fillRoleSet') o.fillRoleSet(e, c.exclude === null ? undefined : c.exclude, ...A);
        else if (m === 'fillFieldSet') o.fillFieldSet(e, x, c.exclude === null ? undefined : c.exclude, ...A);
        else if (m === 'fillUpdateObj') o.fillUpdateObj(e, c.extra[0], x, c.extra[1], ...A);
        else if (m === 'fillSearchObj') o.fillSearchObj(e, x, c.extra[1], ...A);
        else if (m.endsWith('Set')) o[m](e, ...A);
        else o[m](e, x, ...A);
      }
    } catch (e) { return { err: String(e && e.stack || e) }; }
    return { tree: ser(root), log };
  };
};
