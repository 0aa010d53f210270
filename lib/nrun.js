// Generated TypeScript modules in operation: type checking, and playing histories over node:sqlite.
const { DatabaseSync } = require('node:sqlite');
const path = require('path'), fs = require('fs'), vm = require('vm');

// ------------------------------------------------------------ stand-ins
const CODES = { 275: 'SQLITE_CONSTRAINT_CHECK', 531: 'SQLITE_CONSTRAINT_COMMITHOOK', 787: 'SQLITE_CONSTRAINT_FOREIGNKEY', 1299: 'SQLITE_CONSTRAINT_NOTNULL',
  1555: 'SQLITE_CONSTRAINT_PRIMARYKEY', 1811: 'SQLITE_CONSTRAINT_TRIGGER', 2067: 'SQLITE_CONSTRAINT_UNIQUE', 2579: 'SQLITE_CONSTRAINT_ROWID', 3091: 'SQLITE_CONSTRAINT_DATATYPE', 1: 'SQLITE_ERROR', 19: 'SQLITE_CONSTRAINT', 20: 'SQLITE_MISMATCH' };
class SqliteError extends Error { constructor(m, c) { super(m); this.name = 'SqliteError'; this.code = c; } }
function wrap(f) {
  try { return f(); } catch (e) {
    if (e && e.code === 'ERR_SQLITE_ERROR') throw new SqliteError(e.message, CODES[e.errcode] || 'SQLITE_' + e.errcode);
    throw e;
  }
}
function conv(v) { return v instanceof Uint8Array ? Buffer.from(v) : v; }
class Statement {
  constructor(db, sql) {
    if (typeof sql !== 'string') throw new TypeError('Expected first argument to be a string');
    this.sql = sql; this.db = db; this.st = wrap(() => db.d.prepare(sql)); this.israw = false;
    this.reader = this.st.columns().length > 0;
    this.n = countParams(sql);
  }
  raw(x) { if (!this.reader) throw new TypeError('The raw() method is only for statements that return data'); this.israw = x === undefined ? true : x; return this; }
  args(a) {
    if (a.length !== 1 || !Array.isArray(a[0])) a = [a]; 
    const l = a[0];
    if (l.length < this.n) throw new RangeError('Too few parameter values were provided');
    if (l.length > this.n) throw new RangeError('Too many parameter values were provided');
    return l.map(v => {
      if (v === null || typeof v === 'number' || typeof v === 'string') return v;
      if (typeof v === 'bigint') { if (v < -(2n ** 63n) || v >= 2n ** 63n) throw new RangeError('The bound string, buffer, or bigint is too big'); return v; }
      if (v instanceof Uint8Array) return v;
      throw new TypeError('SQLite3 can only bind numbers, strings, bigints, buffers, and null');
    });
  }
  prep() { this.st.setReadBigInts(true); this.st.setReturnArrays(this.israw); }
  row(r) { if (r === undefined) return undefined; if (this.israw) return Array.from(r, conv); const o = {}; for (const k in r) o[k] = conv(r[k]); return o; }
  get(...a) { if (!this.reader) throw new TypeError('This statement does not return data. Use run() instead'); const l = this.args(a); return wrap(() => { this.prep(); for (const r of this.st.iterate(...l)) return this.row(r); return undefined; }); }
  all(...a) { if (!this.reader) throw new TypeError('This statement does not return data. Use run() instead'); const l = this.args(a); return wrap(() => { this.prep(); return this.st.all(...l).map(r => this.row(r)); }); }
  *iterate(...a) {
    if (!this.reader) throw new TypeError('This statement does not return data. Use run() instead');
    const l = this.args(a); this.prep(); const it = this.st.iterate(...l)[Symbol.iterator]();
    try { for (;;) { const r = wrap(() => it.next()); if (r.done) return; yield this.row(r.value); } } finally { if (it.return) it.return(); }
  }
  run(...a) {
    if (this.reader) throw new TypeError('This statement returns data. Use get(), all(), or iterate() instead');
    const l = this.args(a); return wrap(() => { const x = this.st.run(...l); return { changes: Number(x.changes), lastInsertRowid: this.db.safe ? BigInt(x.lastInsertRowid) : Number(x.lastInsertRowid) }; });
  }
}
function countParams(sql) {
  let n = 0;
  for (const m of sql.matchAll(/'(?:[^']|'')*'|"(?:[^"]|"")*"|\?(\d*)/g)) if (m[0][0] === '?') n = m[1] ? Math.max(n, +m[1]) : n + 1;
  return n;
}
let current = null, mode = null;
class Database {
  constructor(name) { if (typeof name !== 'string') throw new TypeError('Expected first argument to be a string'); this.d = current; this.name = name; this.safe = false; this.open = true; }
  defaultSafeIntegers(x) { this.safe = x === undefined ? true : !!x; return this; }
  prepare(s) { return new Statement(this, s); }
  exec(s) { const m = /^\s*BEGIN(?:\s+(IMMEDIATE|DEFERRED|EXCLUSIVE))?/i.exec(s); if (m) mode = (m[1] || 'DEFERRED').toUpperCase(); wrap(() => this.d.exec(s)); return this; }
  pragma() { throw new Error('pragma'); }
}
function fnv(parts) {
  let x = 1469598103934665603n; const M = (1n << 64n) - 1n;
  parts.forEach((p, i) => { if (i) x = ((x ^ 255n) * 1099511628211n) & M; for (const b of Buffer.from(p, 'utf8')) x = ((x ^ BigInt(b)) * 1099511628211n) & M; });
  return x.toString(16).padStart(16, '0');
}
let nsalt = 0;
const bcrypt = {
  hashSync(p, c) {
    if (typeof p !== 'string' && !Buffer.isBuffer(p) || (typeof c !== 'string' && typeof c !== 'number')) throw new Error('data and salt arguments required');
    if (typeof c === 'number' && !(c >= 4 && c <= 31)) throw new Error('rounds');
    const s = String(++nsalt % 1000000).padStart(6, '0');
    return '$2b$08$' + s + '$' + fnv([s, p.toString()]) + '0'.repeat(28);
  },
  compareSync(p, h) {
    if (p === undefined || p === null || h === undefined || h === null) throw new Error('data and hash arguments required');
    if (typeof p !== 'string' && !Buffer.isBuffer(p) || typeof h !== 'string') throw new Error('data and hash must be strings');
    const m = /^\$2b\$08\$(\d{6})\$([0-9a-f]{16})0{28}$/.exec(h);
    return !!m && fnv([m[1], p.toString()]) === m[2];
  },
};
// after the documentation of the package
const validator = {
  isEmail(s) { if (typeof s !== 'string') throw new TypeError('Expected a string'); return Buffer.byteLength(s) <= 254 && /^[A-Za-z0-9.!#$%&'*+/=?^_`{|}~-]{1,64}@[A-Za-z0-9-]+(\.[A-Za-z0-9-]+)*\.[A-Za-z]{2,}$/.test(s); },
  normalizeEmail(s) { if (typeof s !== 'string') throw new TypeError('Expected a string'); const i = s.lastIndexOf('@'); return s.slice(0, i).toLowerCase() + '@' + s.slice(i + 1).toLowerCase(); },
  isDecimal(s, o) { if (typeof s !== 'string') throw new TypeError('Expected a string'); if (!o || o.locale !== 'en-US') throw new Error('locale'); return /^[-+]?([0-9]+)?(\.[0-9]{1,})?$/.test(s) && !['', '-', '+'].includes(s.replace(/ /g, '')); },
  isDate(s, o) {
    if (typeof s !== 'string') return false;
    if (!o || o.format !== 'YYYY-MM-DD') throw new Error('format');
    if (o.strictMode && s.length !== 10) return false;
    const m = /^(\d+)-(\d+)-(\d+)$/.exec(s); if (!m) return false;
    const D = new Date(Date.UTC(+m[1], m[2] - 1, +m[3])); D.setUTCFullYear(+m[1], m[2] - 1, +m[3]);
    return D.getUTCFullYear() === +m[1] && D.getUTCMonth() === m[2] - 1 && D.getUTCDate() === +m[3];
  },
  toDate(s) { if (typeof s !== 'string') throw new TypeError('Expected a string'); const t = Date.parse(s); return isNaN(t) ? null : new Date(t); },
};
class Abort extends Error {}
const fakeProcess = { abort() { throw new Abort('abort'); }, exit(n) { throw new Abort('exit ' + n); }, env: {}, argv: [] };

// -------------------------------------------------------- type checking
const DTS = {
  '/n/node_modules/better-sqlite3/index.d.ts': `
declare namespace BetterSqlite3 {
  interface Statement<B extends unknown[], R = unknown> {
    database: Database; source: string; reader: boolean; readonly: boolean; busy: boolean;
    run(...params: B): Database.RunResult; get(...params: B): R | undefined; all(...params: B): R[]; iterate(...params: B): IterableIterator<R>;
    pluck(toggleState?: boolean): this; expand(toggleState?: boolean): this; raw(toggleState?: boolean): this; bind(...params: B): this; safeIntegers(toggleState?: boolean): this;
  }
  interface Database {
    memory: boolean; readonly: boolean; name: string; open: boolean; inTransaction: boolean;
    prepare<B extends unknown[] | {} = unknown[], R = unknown>(source: string): B extends unknown[] ? Statement<B, R> : Statement<[B], R>;
    exec(source: string): this; pragma(source: string): unknown; defaultSafeIntegers(toggleState?: boolean): this; close(): this;
  }
  interface DatabaseConstructor { new (filename?: string | Buffer, options?: {}): Database; (filename?: string, options?: {}): Database; prototype: Database; }
}
declare namespace Database {
  interface RunResult { changes: number; lastInsertRowid: number | bigint; }
  type Statement<B extends unknown[] | {} = unknown[], R = unknown> = B extends unknown[] ? BetterSqlite3.Statement<B, R> : BetterSqlite3.Statement<[B], R>;
  type Database = BetterSqlite3.Database;
}
declare const Database: BetterSqlite3.DatabaseConstructor;
export = Database;
`,
  '/n/node_modules/bcrypt/index.d.ts': `
export declare function hashSync(data: string | Buffer, saltOrRounds: string | number): string;
export declare function compareSync(data: string | Buffer, encrypted: string): boolean;
declare const bcrypt: { hashSync: typeof hashSync; compareSync: typeof compareSync };
export default bcrypt;
`,
  '/n/node_modules/validator/index.d.ts': `
declare const validator: {
  isEmail(str: string, options?: {}): boolean; normalizeEmail(email: string, options?: {}): string | false;
  isDecimal(str: string, options?: { locale?: 'en-US'; force_decimal?: boolean; decimal_digits?: string }): boolean;
  isDate(str: string, options?: { format?: string; strictMode?: boolean; delimiters?: string[] }): boolean; toDate(str: string): Date | null;
};
export default validator;
`,
  '/n/globals.d.ts': `
declare var process: { abort(): never; exit(code?: number): never; };
declare type BufferEncoding = 'utf8' | 'base64' | 'hex' | 'latin1' | 'ascii';
interface Buffer extends Uint8Array { toString(encoding?: BufferEncoding, start?: number, end?: number): string; equals(o: Uint8Array): boolean; }
interface BufferConstructor { from(x: any, enc?: any): Buffer; alloc(n: number): Buffer; isBuffer(x: any): x is Buffer; byteLength(s: string | ArrayBufferView, enc?: BufferEncoding): number; }
declare var Buffer: BufferConstructor;
declare var console: { log(...a: any[]): void; };
`,
};
const files = new Map(); let last = null;
function checker(ts, texts, opts, globals) {
  const o = Object.assign({ target: ts.ScriptTarget.ES2022, module: ts.ModuleKind.CommonJS, moduleResolution: ts.ModuleResolutionKind.Node10, esModuleInterop: true, strict: true, noImplicitAny: true, alwaysStrict: true, noEmit: true, types: [], skipLibCheck: true, lib: ['lib.es2022.d.ts'] }, opts || {});
  const libd = path.dirname(require.resolve('/opt/veriftools/node/node_modules/typescript'));
  const read = f => texts[f] !== undefined ? texts[f] : DTS[f] !== undefined ? DTS[f] : fs.existsSync(f) ? fs.readFileSync(f, 'utf8') : undefined;
  const host = {
    getSourceFile(f, v) { if (texts[f] === undefined && files.has(f)) return files.get(f); const t = read(f); if (t === undefined) return undefined; const s = ts.createSourceFile(f, t, v, true); if (texts[f] === undefined) files.set(f, s); return s; },
    getDefaultLibFileName: () => path.join(libd, 'lib.d.ts'), getDefaultLibLocation: () => libd, writeFile() {}, getCurrentDirectory: () => '/n', getCanonicalFileName: f => f, useCaseSensitiveFileNames: () => true, getNewLine: () => '\n',
    fileExists: f => read(f) !== undefined, readFile: read, directoryExists: () => true, getDirectories: () => [],
  };
  const p = ts.createProgram({ rootNames: Object.keys(texts).concat(globals || ['/n/globals.d.ts']), options: o, host });
  const d = ts.getPreEmitDiagnostics(p);
  return d.slice(0, 20).map(x => {
    let w = ''; if (x.file) { const l = x.file.getLineAndCharacterOfPosition(x.start); w = x.file.fileName + ':' + (l.line + 1) + ': ' + (x.file.text.split('\n')[l.line] || '').trim() + ' -- '; }
    return w + 'TS' + x.code + ' ' + ts.flattenDiagnosticMessageText(x.messageText, '\n');
  });
}

// --------------------------------------------------------------- driver
function hexf(v) {
  if (v === 0) return Object.is(v, -0) ? '-0x0.0p+0' : '0x0.0p+0';
  if (!isFinite(v)) return isNaN(v) ? 'nan' : v > 0 ? 'inf' : '-inf';
  const b = new DataView(new ArrayBuffer(8)); b.setFloat64(0, v); const u = b.getBigUint64(0);
  const s = u >> 63n ? '-' : ''; let e = Number((u >> 52n) & 0x7ffn); const m = u & 0xfffffffffffffn;
  const lead = e === 0 ? '0' : '1'; if (e === 0) e = 1;
  return s + '0x' + lead + '.' + m.toString(16).padStart(13, '0') + 'p' + (e - 1023 >= 0 ? '+' : '') + (e - 1023);
}
function unhexf(t) {
  const m = /^(-?)0x([0-9a-f])(?:\.([0-9a-f]*))?p([-+]?\d+)$/i.exec(t); if (!m) return t === 'inf' ? Infinity : t === '-inf' ? -Infinity : NaN;
  const f = m[3] || ''; let v = Number(BigInt('0x' + m[2] + f)); let e = Number(m[4]) - 4 * f.length;
  while (e < -1000) { v *= 2 ** -500; e += 500; }
  v *= 2 ** e; return m[1] ? -v : v;
}
const INTS = new Set(['bit', 'bits', 'date', 'epoch', 'int']);
function outv(t, v) {
  if (v === null) return null;
  if (INTS.has(t)) return typeof v === 'bigint' ? 'i' + v : 'TYPE ' + typeof v + ' ' + v;
  if (t === 'enum') return typeof v === 'string' && /^-?\d+$/.test(v) ? 'i' + v : 'TYPE ' + typeof v + ' ' + v;
  if (t === 'real') return typeof v === 'number' ? 'r' + hexf(v) : 'TYPE ' + typeof v + ' ' + v;
  if (t === 'blob') return Buffer.isBuffer(v) ? 'b' + v.toString('hex') : 'TYPE ' + typeof v;
  return typeof v === 'string' ? 's' + Buffer.from(v, 'utf8').toString('hex') : 'TYPE ' + typeof v;
}
function raw(v) {
  if (v === null) return null;
  if (typeof v === 'bigint') return 'i' + v;
  if (typeof v === 'number') return 'r' + hexf(v);
  if (typeof v === 'string') return 's' + Buffer.from(v, 'utf8').toString('hex');
  return 'b' + Buffer.from(v).toString('hex');
}
function play(mod, q) {
  const out = []; let rc = 0, err = '';
  current = new DatabaseSync(':memory:');
  const side = current;
  try {
    side.exec(q.schema);
    const db = mod.ort(':memory:', q.cost === null ? undefined : { bcrypt_cost: q.cost });
    const ctx = db.connect();
    const S = q.structs, OPS = q.ops;
    const dump = (sn, o) => {
      const r = {};
      for (const [n, t, ref] of S[sn]) {
        if (!(n in o)) continue;
        r[n] = t === 'struct' ? (o[n] === null ? null : dump(ref, o[n])) : outv(t, o[n]);
      }
      const extra = Object.keys(o).filter(k => !S[sn].some(x => x[0] === k));
      if (extra.length) r.EXTRA = extra;
      return r;
    };
    let flip = 1;
    const arg = (a, t) => {
      if (a === '~') return null;
      const b = a.slice(1);
      if (a[0] === '@') { const [tb, c, id] = b.split('.'); const r = side.prepare(`SELECT ${c} AS x FROM ${tb} WHERE _rowid_ = ${id}`).get(); return r && r.x !== null ? r.x : ''; }
      /* Bit-fields may be given unsigned, as the BITF constants are. */
      if (a[0] === 'i' && t === 'bits' && b[0] === '-' && flip++ % 3) return BigInt.asUintN(64, BigInt(b));
      if (a[0] === 'i') return t === 'enum' ? b : BigInt(b);
      if (a[0] === 'r') return unhexf(b);
      if (a[0] === 'b') return Buffer.from(b, 'hex');
      return Buffer.from(b, 'hex').toString('utf8');
    };
    for (const line of q.lines) {
      const tok = line.split(' '); let n = tok[0], js = '';
      if ('+=*'.includes(n[0])) { js = n[0]; n = n.slice(1); }
      if (n === 'dump') {
        const o = {};
        for (const sn of Object.keys(S)) {
          const st = side.prepare(`SELECT ${['_rowid_'].concat(S[sn].filter(x => x[1] !== 'struct').map(x => x[0])).join(', ')} FROM ${sn} ORDER BY _rowid_`);
          st.setReadBigInts(true); st.setReturnArrays(true); o[sn] = st.all().map(r => Array.from(r, raw));
        }
        out.push(JSON.stringify(o)); continue;
      }
      if (n === 'begin') {
        const m = tok[2]; mode = null;
        if (m === 'i0') ctx.db_trans_open_deferred(1); else if (m === 'i1') ctx.db_trans_open_immediate(1); else ctx.db_trans_open_exclusive(1);
        out.push(JSON.stringify('B' + { DEFERRED: 0, IMMEDIATE: 1, EXCLUSIVE: -1 }[mode])); continue;
      }
      if (n === 'commit') { ctx.db_trans_commit(1); out.push('"ok"'); continue; }
      if (n === 'rollback') { ctx.db_trans_rollback(1); out.push('"ok"'); continue; }
      if (n === 'sql') { side.exec(arg(tok[1])); out.push('"ok"'); continue; }
      if (n === 'role') { ctx.db_role(tok[1]); out.push(JSON.stringify(ctx.db_role_current())); continue; }
      const op = OPS[n]; const a = op.params.map((t, i) => arg(tok[i + 1], t));
      if (typeof ctx[n] !== 'function') throw new Error('no method ' + n);
      if (op.kind === 'insert') { const v = ctx[n](...a); out.push(JSON.stringify(typeof v === 'bigint' ? 'I' + v : 'TYPE')); continue; }
      if (op.kind === 'update') { const v = ctx[n](...a); out.push(JSON.stringify(v === true ? 'U1' : v === false ? 'U0' : 'TYPE')); continue; }
      if (op.kind === 'delete') {
        try { ctx[n](...a); } catch (e) { if (e instanceof SqliteError && e.code.startsWith('SQLITE_CONSTRAINT')) { rc = 1; err = 'delete threw ' + e.code; break; } throw e; }
        out.push('"D"'); continue;
      }
      if (op.kind === 'count') { const v = ctx[n](...a); out.push(JSON.stringify(typeof v === 'bigint' ? 'C' + v : 'TYPE')); continue; }
      let rows;
      if (op.kind === 'search') { const v = ctx[n](...a); if (v === undefined) throw new Error('undefined'); rows = v === null ? [] : [v]; }
      else if (op.kind === 'list') rows = ctx[n](...a);
      else { rows = []; const v = ctx[n](...a, x => { rows.push(x); }); if (v !== undefined) throw new Error('iterate returned a value'); }
      for (const r of rows) if (!(r instanceof mod.ortns[op.ret])) throw new Error('result is not an ortns.' + op.ret);
      if (js) out.push(JSON.stringify(rows.map(r => r.export())));
      else out.push(JSON.stringify(rows.map(r => dump(op.ret, r.obj))));
    }
  } catch (e) {
    if (e instanceof Abort) { rc = -6; err = 'aborted'; }
    else { rc = 70; err = String(e && e.stack || e) + (e && e.code ? ' ' + e.code : ''); }
  }
  try { side.close(); } catch (e) {}
  return { out, rc, err };
}

module.exports = function (cmds, base) {
  const mods = new Map(); let nid = 0;
  function load(js) {
    const m = { exports: {} };
    const req = n => n === 'better-sqlite3' ? { __esModule: true, default: Database } : n === 'bcrypt' ? { __esModule: true, default: bcrypt } : n === 'validator' ? { __esModule: true, default: validator } : (() => { throw new Error('require ' + n); })();
    new Function('module', 'exports', 'require', 'process', js)(m, m.exports, req, fakeProcess);
    return m.exports;
  }
  cmds.nbuild = q => {
    let errs = [];
    if (q.check) { const t = { '/n/db.ts': q.src }; if (q.usage) t['/n/usage.ts'] = q.usage; errs = checker(base.ts, t); }
    if (errs.length) return { errs };
    const t = base.transpile(q.src); if (t.errs.length) return { errs: t.errs };
    const id = ++nid;
    try { mods.set(id, load(t.js)); } catch (e) { return { errs: ['loading: ' + (e.stack || e)] }; }
    if (mods.size > 4) mods.delete(mods.keys().next().value);
    return { id, errs: [] };
  };
  cmds.nplay = q => { const m = mods.get(q.id); if (!m) return { gone: true }; return play(m, q); };
  cmds.nvalid = q => {
    const m = mods.get(q.id); if (!m) return { gone: true };
    const V = m.ortvalid.ortValids;
    return { names: Object.keys(V), res: q.vals.map(([n, a, t]) => {
      let v = a === 'undefined' ? undefined : a === '~' ? null : a[0] === 's' ? Buffer.from(a.slice(1), 'hex').toString('utf8') : a[0] === 'n' ? Number(a.slice(1)) : a[0] === 'i' ? BigInt(a.slice(1)) : a[0] === 'j' ? JSON.parse(a.slice(1)) : Buffer.from(a.slice(1), 'hex');
      try { const r = V[n](v); return r === undefined ? 'undefined' : outv(t, r); } catch (e) { return 'THROW ' + (e.stack || e); }
    }) };
  };
  cmds.nconst = q => { const m = mods.get(q.id); if (!m) return { gone: true }; const o = {}; for (const n of q.names) o[n] = m.ortns[n]; return { v: o }; };
  cmds.script = q => { // a hand-written script appended to an embedded module (regress/nodejs)
    current = new DatabaseSync(':memory:'); current.exec(q.schema);
    const t = base.transpile(q.src); if (t.errs.length) return { errs: t.errs };
    try { return { v: new Function('Database', 'bcrypt', 'validator', 'dbfile', 'process', t.js)(Database, bcrypt, validator, ':memory:', fakeProcess) }; } catch (e) { return { errs: [String(e.stack || e)] }; }
  };
};
module.exports.checker = checker;
