// Generated documents scripts (ort-javascript(1)) in operation over a small document object model.
const { checker } = require('./nrun.js');

class Node {
  constructor() { this.parentNode = null; this.childNodes = []; }
  get firstChild() { return this.childNodes[0] || null; }
  get lastChild() { return this.childNodes[this.childNodes.length - 1] || null; }
  get parentElement() { return this.parentNode instanceof Element ? this.parentNode : null; }
  get nextSibling() { const p = this.parentNode; return p ? p.childNodes[p.childNodes.indexOf(this) + 1] || null : null; }
  get previousSibling() { const p = this.parentNode; return p ? p.childNodes[p.childNodes.indexOf(this) - 1] || null : null; }
  get ownerDocument() { return doc; }
  get isConnected() { return true; }
  hasChildNodes() { return this.childNodes.length > 0; }
  contains(n) { for (; n; n = n.parentNode) if (n === this) return true; return false; }
  remove() { if (this.parentNode) this.parentNode.removeChild(this); }
  removeChild(n) { const i = this.childNodes.indexOf(n); if (i < 0) throw new Error('NotFoundError'); this.childNodes.splice(i, 1); n.parentNode = null; return n; }
  insertBefore(n, r) {
    if (n.contains(this)) throw new Error('HierarchyRequestError');
    if (n instanceof Fragment) { for (const c of n.childNodes.slice()) this.insertBefore(c, r); return n; }
    n.remove(); const i = r ? this.childNodes.indexOf(r) : this.childNodes.length;
    if (i < 0) throw new Error('NotFoundError');
    this.childNodes.splice(i, 0, n); n.parentNode = this; return n;
  }
  appendChild(n) { return this.insertBefore(n, null); }
  replaceChild(n, o) { this.insertBefore(n, o); return this.removeChild(o); }
  append(...l) { for (const n of l) this.appendChild(tonode(n)); }
  prepend(...l) { const f = this.firstChild; for (const n of l) this.insertBefore(tonode(n), f); }
  before(...l) { for (const n of l) this.parentNode.insertBefore(tonode(n), this); }
  after(...l) { const f = this.nextSibling; for (const n of l) this.parentNode.insertBefore(tonode(n), f); }
  replaceWith(...l) { this.before(...l); this.remove(); }
  replaceChildren(...l) { const m = l.map(tonode); for (const n of this.childNodes.slice()) this.removeChild(n); for (const n of m) this.appendChild(n); }
  get textContent() { return this.childNodes.map(c => c.textContent).join(''); }
  set textContent(v) { if (v === null || String(v) === '') this.replaceChildren(); else this.replaceChildren(String(v)); }
  // parents of elements
  get children() { return list(this.childNodes.filter(c => c instanceof Element)); }
  get firstElementChild() { return this.children[0] || null; }
  get lastElementChild() { const c = this.children; return c[c.length - 1] || null; }
  get childElementCount() { return this.children.length; }
  all() { const o = []; for (const c of this.childNodes) if (c instanceof Element) { o.push(c); o.push(...c.all()); } return o; }
  getElementsByClassName(n) { const w = String(n).split(/\s+/).filter(x => x); return list(w.length ? this.all().filter(e => w.every(x => e.classes.includes(x))) : []); }
  getElementsByTagName(n) { n = String(n).toLowerCase(); return list(this.all().filter(e => n === '*' || e.localName === n)); }
  querySelectorAll(s) { return list(this.all().filter(e => e.matches(s))); }
  querySelector(s) { return this.querySelectorAll(s)[0] || null; }
}
function tonode(x) { return x instanceof Node ? x : new Text(String(x)); }
function list(a) { a.item = i => a[i] || null; return a; }
class Text extends Node {
  constructor(d) { super(); this.data = String(d); }
  get nodeType() { return 3; } get nodeName() { return '#text'; }
  get nodeValue() { return this.data; } set nodeValue(v) { this.data = String(v); }
  get textContent() { return this.data; } set textContent(v) { this.data = String(v); }
  cloneNode() { return new Text(this.data); }
}
class Fragment extends Node { get nodeType() { return 11; } cloneNode(d) { const f = new Fragment(); if (d) for (const c of this.childNodes) f.appendChild(c.cloneNode(true)); return f; } }
class ClassList {
  constructor(e) { this.e = e; }
  get l() { return this.e.classes; } set l(v) { this.e.setAttribute('class', v.join(' ')); }
  check(n) { n = String(n); if (n === '') throw new Error('SyntaxError'); if (/\s/.test(n)) throw new Error('InvalidCharacterError'); return n; }
  contains(n) { return this.l.includes(String(n)); }
  add(...a) { const l = this.l; for (const n of a) if (!l.includes(this.check(n))) l.push(String(n)); this.l = l; }
  remove(...a) { a.forEach(n => this.check(n)); this.l = this.l.filter(x => !a.includes(x)); }
  toggle(n, f) { this.check(n); const on = f === undefined ? !this.contains(n) : f; if (on) this.add(n); else this.remove(n); return on; }
  replace(a, b) { if (!this.contains(a)) return false; this.l = this.l.map(x => x === a ? b : x).filter((x, i, m) => m.indexOf(x) === i); return true; }
  get length() { return this.l.length; } item(i) { return this.l[i] || null; } get value() { return this.l.join(' '); } set value(v) { this.e.setAttribute('class', v); }
  forEach(f) { this.l.forEach(f); } [Symbol.iterator]() { return this.l[Symbol.iterator](); } toString() { return this.value; }
}
class Element extends Node {
  constructor(t) { super(); this.localName = String(t).toLowerCase(); this.attrs = new Map(); }
  get nodeType() { return 1; } get tagName() { return this.localName.toUpperCase(); } get nodeName() { return this.tagName; }
  get classes() { return (this.attrs.get('class') || '').split(/\s+/).filter((x, i, m) => x && m.indexOf(x) === i); }
  get classList() { return new ClassList(this); }
  get className() { return this.attrs.get('class') || ''; } set className(v) { this.setAttribute('class', v); }
  get id() { return this.attrs.get('id') || ''; } set id(v) { this.setAttribute('id', v); }
  getAttribute(n) { n = String(n).toLowerCase(); return this.attrs.has(n) ? this.attrs.get(n) : null; }
  setAttribute(n, v) { if (arguments.length < 2) throw new TypeError('2 arguments required'); this.attrs.set(String(n).toLowerCase(), String(v)); }
  removeAttribute(n) { this.attrs.delete(String(n).toLowerCase()); }
  hasAttribute(n) { return this.attrs.has(String(n).toLowerCase()); }
  toggleAttribute(n, f) { const on = f === undefined ? !this.hasAttribute(n) : f; if (!on) this.removeAttribute(n); else if (!this.hasAttribute(n)) this.setAttribute(n, ''); return on; }
  getAttributeNames() { return [...this.attrs.keys()]; }
  hasAttributes() { return this.attrs.size > 0; }
  matches(s) {
    return s.split(',').some(alt => {
      const parts = alt.trim().split(/\s+/); let e = this;
      if (!simple(e, parts.pop())) return false;
      while (parts.length) { const p = parts.pop(); do e = e.parentNode; while (e && !(e instanceof Element && simple(e, p))); if (!e) return false; }
      return true;
    });
  }
  closest(s) { for (let e = this; e instanceof Element; e = e.parentNode) if (e.matches(s)) return e; return null; }
  cloneNode(deep) { const e = doc.createElement(this.localName); for (const [k, v] of this.attrs) e.attrs.set(k, v); if (deep) for (const c of this.childNodes) e.appendChild(c.cloneNode(true)); return e; }
}
function simple(e, s) {
  const m = s.match(/^([a-z0-9*]*)((?:[.#][\w-]+|\[[\w-]+(?:=["']?[^"'\]]*["']?)?\])*)$/i);
  if (!m) throw new Error('SyntaxError: selector ' + s);
  if (m[1] && m[1] !== '*' && m[1].toLowerCase() !== e.localName) return false;
  for (const x of m[2].match(/[.#][\w-]+|\[[^\]]*\]/g) || []) {
    if (x[0] === '.' && !e.classes.includes(x.slice(1)) || x[0] === '#' && e.id !== x.slice(1)) return false;
    if (x[0] === '[') { const y = x.match(/^\[([\w-]+)(?:=["']?([^"'\]]*)["']?)?\]$/); if (!e.hasAttribute(y[1]) || y[2] !== undefined && e.getAttribute(y[1]) !== y[2]) return false; }
  }
  return true;
}
class HTMLElement extends Element {
  get lang() { return this.attrs.get('lang') || ''; } set lang(v) { this.setAttribute('lang', v); }
  get hidden() { return this.hasAttribute('hidden'); } set hidden(v) { this.toggleAttribute('hidden', !!v); }
  get title() { return this.attrs.get('title') || ''; } set title(v) { this.setAttribute('title', v); }
  get innerText() { return this.textContent; } set innerText(v) { this.textContent = v; }
  get dataset() { const o = {}; for (const [k, v] of this.attrs) if (k.startsWith('data-')) o[k.slice(5)] = v; return o; }
}
class HTMLInputElement extends HTMLElement {
  get type() { return (this.attrs.get('type') || 'text').toLowerCase(); }
  get value() { return this._value !== undefined ? this._value : this.attrs.has('value') ? this.attrs.get('value') : ['checkbox', 'radio'].includes(this.type) ? 'on' : ''; }
  set value(v) { if (['checkbox', 'radio', 'hidden', 'submit', 'button', 'image', 'reset'].includes(this.type)) this.setAttribute('value', v); else this._value = String(v); }
  get defaultValue() { return this.attrs.get('value') || ''; } set defaultValue(v) { this.setAttribute('value', v); }
  get checked() { return this._checked !== undefined ? this._checked : this.hasAttribute('checked'); } set checked(v) { this._checked = !!v; }
  get defaultChecked() { return this.hasAttribute('checked'); } set defaultChecked(v) { this.toggleAttribute('checked', !!v); }
}
class HTMLOptionElement extends HTMLElement {
  get value() { return this.attrs.has('value') ? this.attrs.get('value') : this.textContent.trim().replace(/\s+/g, ' '); } set value(v) { this.setAttribute('value', v); }
  get selected() { return this._sel !== undefined ? this._sel : this.hasAttribute('selected'); } set selected(v) { this._sel = !!v; }
  get defaultSelected() { return this.hasAttribute('selected'); } set defaultSelected(v) { this.toggleAttribute('selected', !!v); }
}
class HTMLSelectElement extends HTMLElement { get options() { return this.getElementsByTagName('option'); } }
class HTMLTextAreaElement extends HTMLElement { get value() { return this._value !== undefined ? this._value : this.textContent; } set value(v) { this._value = String(v); } }
const KINDS = { input: HTMLInputElement, option: HTMLOptionElement, select: HTMLSelectElement, textarea: HTMLTextAreaElement };
const doc = new (class Document extends Node {
  createElement(t) { return new (KINDS[String(t).toLowerCase()] || HTMLElement)(t); }
  createTextNode(d) { return new Text(d); }
  createDocumentFragment() { return new Fragment(); }
  get documentElement() { return this.firstElementChild; }
  get body() { return this.documentElement.lastElementChild; }
  getElementById(n) { return this.all().find(e => e.id === n) || null; }
})();
const KNOWN = { Node, Text, Element, HTMLElement, HTMLInputElement, HTMLOptionElement, HTMLSelectElement, HTMLTextAreaElement, DocumentFragment: Fragment, document: doc };

function build(t) {
  if (typeof t === 'string') return new Text(t);
  const e = doc.createElement(t.tag);
  if (t.cls.length) e.setAttribute('class', t.cls.join(' '));
  for (const k in t.attrs) e.setAttribute(k, t.attrs[k]);
  for (const k of t.kids) e.appendChild(build(k));
  return e;
}
function ser(e) {
  if (e instanceof Text) return e.data;
  const a = {}; for (const [k, v] of e.attrs) if (k !== 'class') a[k] = v;
  const kids = []; // adjacent texts are one, empty ones none
  for (const c of e.childNodes) { const x = ser(c); if (x === '') continue; if (typeof x === 'string' && typeof kids[kids.length - 1] === 'string') kids[kids.length - 1] += x; else kids.push(x); }
  const o = { tag: e.localName, cls: e.classes, attrs: a, kids };
  for (const k of ['_value', '_checked', '_sel']) if (e[k] !== undefined) o[k] = e[k];
  return o;
}
module.exports = function (cmds, base) {
  let cur = null, src = null;
  cmds.jbuild = q => {
    if (q.check) {
      const errs = checker(base.ts, { '/n/ort.ts': q.src + (q.usage || '') }, { lib: ['lib.es2021.d.ts', 'lib.dom.d.ts', 'lib.dom.iterable.d.ts'], target: base.ts.ScriptTarget.ES2021 }, []);
      if (errs.length) return { errs };
    }
    const t = base.transpile(q.src); if (t.errs.length) return { errs: t.errs };
    try { cur = new Function(...Object.keys(KNOWN), t.js + '\nreturn ort;')(...Object.values(KNOWN)); } catch (e) { return { errs: ['loading: ' + (e.stack || e)] }; }
    return { errs: [] };
  };
  cmds.jconst = q => { const o = {}; for (const n of q.names) { o[n] = {}; for (const k of Object.getOwnPropertyNames(cur[n])) { if (['prototype', 'length', 'name'].includes(k) && typeof Object.getOwnPropertyDescriptor(cur[n], k).value !== 'string') continue; if (k === 'prototype') continue; const v = cur[n][k]; if (typeof v === 'string') o[n][k] = 's' + v; else if (typeof v === 'number') o[n][k] = 'n' + v; else if (v && typeof v === 'object') o[n][k] = 'l' + lval(v); } } return { v: o }; };
  function lval(l) { const u = BigInt.asUintN(64, (BigInt(l.high) << 32n) | BigInt(l.low >>> 0)); return String(l.unsigned ? u : BigInt.asIntN(64, u)); }
  cmds.jfill = q => {
    process.env.TZ = q.tz || 'UTC';
    const html = doc.createElement('html'); if (q.lang !== null) html.setAttribute('lang', q.lang);
    const body = doc.createElement('body'); html.appendChild(body); doc.replaceChildren(html);
    const root = build(q.tree); body.appendChild(root);
    const at = p => { if (p === null) return null; let e = root; for (const i of p) e = e.childNodes[i]; return e; };
    const log = [];
    const related = (e, n) => [e].concat(e.all()).filter(x => x.classes.some(c => c.startsWith(n + '-') && !/^[^-]*-(has|no)(-|$)/.test(c))).map(x => { const y = ser(x); return [y.cls, y.attrs, y.kids.every(k => typeof k === 'string') ? y.kids.join('') : null]; });
    const mk = (k, sp) => sp[0] === 'log' ? (e, n, v) => { log.push([k, sp[1], e === root, n, v === undefined ? 'undefined' : JSON.stringify(v), related(e, n)]); } : cur[sp[1]].format;
    let custom; if (q.custom !== null) { custom = {}; for (const k in q.custom) custom[k] = q.custom[k].length === 1 && !q.custom[k][0][2] ? mk(k, q.custom[k][0]) : q.custom[k].map(x => mk(k, x)); }
    try {
      if (q.format) cur[q.format[0]].format(at(q.at), q.format[1], q.format[2]);
      else {
        const o = new cur[q.struct](q.data); const e = at(q.at), c = custom === undefined ? (q.nullcustom ? [null] : []) : [custom];
        if (q.method.endsWith('ByClass')) o[q.method](e, q.name, ...c);
        else if (q.method.startsWith('fillArrayOr')) o[q.method](e, at(q.other), ...c);
        else o[q.method](e, ...c);
      }
    } catch (e) { return { err: String(e.stack || e) }; }
    return { tree: ser(root), log };
  };
  cmds.jlong = q => {
    const L = cur.Long;
    const get = x => x[0] === 'n' ? Number(x[2]) : x[1] === null ? L.fromString(x[2]) : L.fromString(x[2], x[1]);
    return { res: q.ops.map(o => {
      try {
        let v;
        if (o[0] === 'fromString') v = o[2] === null ? L.fromString(o[1]) : L.fromString(o[1], o[2]);
        else if (o[0] === 'fromStringZero') v = o[2] === null ? L.fromStringZero(o[1]) : L.fromStringZero(o[1], o[2]);
        else if (o[0] === 'fromNumber') v = o[2] === null ? L.fromNumber(Number(o[1])) : L.fromNumber(Number(o[1]), o[2]);
        else if (o[0] === 'fromValue') v = L.fromValue(o[1] === 'undefined' ? undefined : JSON.parse(o[1]));
        else { const a = get(o[1]); v = o.length > 2 ? a[o[0]](get(o[2])) : a[o[0]](); }
        if (v === null || typeof v === 'boolean' || typeof v === 'number' && (isNaN(v) || true) && typeof v !== 'object') return v === null ? 'null' : typeof v === 'number' ? 'n' + (Object.is(v, -0) ? '0' : v) : String(v);
        return (v.unsigned ? 'u' : 's') + lval(v);
      } catch (e) { return 'THROW ' + (e.stack || e); }
    }) };
  };
};
module.exports.run = function (js, kids) { // a hand-written test (regress/javascript)
  const html = doc.createElement('html'), body = doc.createElement('body'); html.appendChild(body); doc.replaceChildren(html);
  for (const k of kids) body.appendChild(build(k));
  new Function(...Object.keys(KNOWN), js + '\nreturn runTest(document);')(...Object.values(KNOWN));
  return ser(body).kids;
};
module.exports.dom = { doc, KNOWN, build, ser, Element };
