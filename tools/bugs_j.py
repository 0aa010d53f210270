# More planted changes; see plant.py.
BUGS = []
def bug(id, property, edits, needs, breaks, demo, files=None):
    BUGS.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, demo=demo, files=files or {}))

bug("c04-update-comment", "C04", [("writer.c", """	if (TAILQ_EMPTY(&p->crq) &&
	    p->name == NULL && p->doc == NULL)
		return wputs(w, ";\\n");
""", """	if (TAILQ_EMPTY(&p->crq) && p->name == NULL)
		return wputs(w, ";\\n");
""")], "an update with a comment but with neither constraints nor a name", "the comment is lost on writing", r"""
cat >"$t/a.ort" <<'F'
struct s { field id int rowid; field x int; update x:: comment "hello"; };
F
./ort "$t/a.ort" >"$t/b" || exit 1
cat "$t/b"
grep -q hello "$t/b"
""")

bug("c05-rolemap-case", "C05", [("parser_struct.c", """		      r->struct_rolemap.name != NULL &&
		      strcasecmp(name, r->struct_rolemap.name) == 0))) {
""", """		      r->struct_rolemap.name != NULL &&
		      strcmp(name, r->struct_rolemap.name) == 0))) {
""")], "two role statements for one operation that spell its name in different case", "the same role assigned twice to an operation isn't reported", r"""
cat >"$t/a.ort" <<'F'
roles { role r1; };
struct s {
	field id int rowid;
	field x int;
	list x: name foo;
	roles r1 { list foo; };
	roles r1 { list FOO; };
};
F
cat >"$t/b.ort" <<'F'
roles { role r1; role r2; };
struct s {
	field id int rowid;
	field x int;
	list x: name foo;
	roles r1 { list foo; };
	roles r2 { list FOO; };
};
F
./ort "$t/b.ort" >"$t/out" || exit 1
./ort "$t/a.ort" >"$t/a" 2>"$t/ae"; r1=$?
sed 's/FOO/foo/' "$t/a.ort" >"$t/c.ort"
./ort "$t/c.ort" >"$t/c" 2>"$t/ce"; r2=$?
cat "$t/ae" "$t/ce"
[ $r1 = $r2 ]
""")

bug("c05-update-op-case", "C05", [("parser_struct.c", """			     OPTYPE__MAX != ur->op; ur->op++)
				if (0 == strcasecmp(p->last.string, 
				    optypes[ur->op]))
					break;
			if (OPTYPE__MAX == ur->op) {
				parse_errx(p, "unknown operator");
				return;
			}
			if (TOK_COLON == parse_next(p))
				break;
			else if (TOK_SEMICOLON == p->lasttype)
				return;
		}
""", """			     OPTYPE__MAX != ur->op; ur->op++)
				if (0 == strcmp(p->last.string, 
				    optypes[ur->op]))
					break;
			if (OPTYPE__MAX == ur->op) {
				parse_errx(p, "unknown operator");
				return;
			}
			if (TOK_COLON == parse_next(p))
				break;
			else if (TOK_SEMICOLON == p->lasttype)
				return;
		}
""")], "an upper-case operator for an update", "a legal operator is refused", r"""
cat >"$t/a.ort" <<'F'
struct s { field id int rowid; field x int; update x: id GE, x: name foo; };
F
./ort "$t/a.ort"
""")

bug("c10-label-quotes", "C10", [("ort-json.ts", r"""					set[keys[i]].value.replace
						(/"/g, '\\"');
""", r"""					set[keys[i]].value.replace
						('"', '\\"');
""")], "a label with two quotation marks", "the configuration written from JSON cuts the label short", r"""
cat >"$t/a.ort" <<'F'
enum e { item a 1 jslabel "x \"y\" z"; };
struct s { field f enum e; };
F
./ort-json "$t/a.ort" >"$t/a.json" || exit 1
cat >"$t/r.js" <<'F'
const fs = require('fs'), ts = require(process.argv[3]);
const js = ts.transpileModule(fs.readFileSync('ort-json.ts', 'utf8'), { compilerOptions: { target: 'es2020' } }).outputText;
const ns = new Function(js + '\nreturn ortJson;')();
const d = JSON.parse(fs.readFileSync(process.argv[2], 'utf8'));
process.stdout.write(new ns.ortJsonConfigFormat(d).toString());
F
T=$(dirname "$(dirname "$(readlink -f "$(command -v tsc)")")"); [ -f "$T/lib/typescript.js" ] || T=/opt/veriftools/node/node_modules/typescript
node "$t/r.js" "$t/a.json" "$T/lib/typescript.js" >"$t/b.ort" || exit 1
cat "$t/b.ort"
./ort "$t/b.ort" >"$t/c.ort" || exit 1
./ort-diff "$t/a.ort" "$t/c.ort"
""")

DOM = r"""// A very small document: elements with classes, children, text and attributes.
const fs = require('fs');
class E {
	constructor(cls, ...kids) { this.cls = cls.split(' ').filter(x => x); this.kids = kids; this.attrs = {}; this.text = ''; const me = this;
		this.classList = { contains: c => me.cls.includes(c), add(c) { if (!me.cls.includes(c)) me.cls.push(c); }, remove(c) { me.cls = me.cls.filter(x => x !== c); } }; }
	get children() { return this.kids; }
	get firstChild() { return this.kids[0] || null; }
	get textContent() { return this.text + this.kids.map(k => k.textContent).join(''); }
	set textContent(t) { this.kids = []; this.text = String(t); }
	removeChild(k) { this.kids.splice(this.kids.indexOf(k), 1); return k; }
	appendChild(k) { this.kids.push(k); return k; }
	setAttribute(k, v) { this.attrs[k] = String(v); }
	removeAttribute(k) { delete this.attrs[k]; }
	cloneNode() { const n = new E(this.cls.join(' '), ...this.kids.map(k => k.cloneNode())); n.text = this.text; n.attrs = Object.assign({}, this.attrs); return n; }
	getElementsByClassName(c) { const r = []; for (const k of this.kids) { if (k.cls.includes(c)) r.push(k); r.push(...k.getElementsByClassName(c)); } return r; }
}
const ts = (() => { for (const d of [process.env.TSDIR, '/opt/veriftools/node/node_modules/typescript']) try { return require(d); } catch (e) { } process.exit(1); })();
const js = ts.transpileModule(fs.readFileSync('ort-json.ts', 'utf8'), { compilerOptions: { target: 'es2020' } }).outputText;
const ns = new Function('document', js + '\nreturn ortJson;')({ getElementById: () => null });
module.exports = { E, fmt: f => new ns.ortJsonConfigFormat(JSON.parse(fs.readFileSync(f, 'utf8'))), doc: f => JSON.parse(fs.readFileSync(f, 'utf8')) };
"""
def page(conf, js):
    return "cat >\"$t/a.ort\" <<'F'\n" + conf.strip("\n") + "\nF\n./ort-json \"$t/a.ort\" >\"$t/a.json\" || exit 1\ncat >\"$t/p.js\" <<'F'\nconst { E, fmt, doc } = require(process.argv[2]); const f = process.argv[3];\n" + js.strip("\n") + "\nF\nnode \"$t/p.js\" \"$here/dom.js\" \"$t/a.json\"\n"

bug("c30-limoffs", "C30", [("ort-json.ts", """			if (query.limit.toString() === '0' &&
			    query.offset.toString() === '0') {
""", """			if (query.limit.toString() === '0') {
""")], "a query with an offset but without a limit", "the page says it has neither", page("""
struct s { field id int rowid; list: name foo limit 0,3; };
""", """
const a = new E('config-query-limoffs-has'), b = new E('config-query-limoffs-none');
const e = new E('', new E('config-strcts', new E('', new E('config-queries', new E('', a, b)))));
fmt(f).fill(e);
const h = c => e.getElementsByClassName(c)[0].cls.includes('hide');
process.exit(!h('config-query-limoffs-has') && h('config-query-limoffs-none') ? 0 : 1);
"""), {"dom.js": DOM})

bug("c30-source-link", "C30", [("ort-json.ts", """					'strcts/' + field.ref.source.strct + 
					'/fields/' + field.ref.source.field);
""", """					'strcts/' + field.ref.source.strct + 
					'/fields/' + field.name);
""")], "a structure field, whose source is another field", "the link to the source goes to the structure field itself", page("""
struct b { field id int rowid; };
struct a { field x:b.id int; field y struct x; };
""", """
const e = new E('', new E('config-strcts', new E('', new E('config-fields', new E('', new E('config-field-name'), new E('config-field-ref-source-field-link'))))));
fmt(f).fill(e);
const l = e.getElementsByClassName('config-field-ref-source-field-link').map(x => x.attrs.href).filter(x => x);
console.log(l);
process.exit(l.length === 2 && l.every(x => x.endsWith('/fields/x')) ? 0 : 1);
"""), {"dom.js": DOM})

bug("c30-rolemap-skip", "C30", [("ort-json.ts", """			const list: HTMLElement[] = this.list(e, cls);
			for (let i: number = 0; i < list.length; i++) {
				if (list[i].children.length === 0)
					continue;
""", """			const list: HTMLElement[] = this.list(e, cls);
			for (let i: number = 0; i < list.length; i++) {
				if (list[i].children.length === 0)
					break;
""")], "a page with two lists of an operation's roles, the first of them without a template", "the second isn't filled in", page("""
roles { role r1; };
struct s { field id int rowid; insert; roles r1 { insert; }; };
""", """
const e = new E('', new E('config-strcts', new E('', new E('config-insert-rolemap'), new E('config-insert-rolemap', new E('config-insert-rolemap-role')))));
fmt(f).fill(e);
const l = e.getElementsByClassName('config-insert-rolemap-role');
console.log(l.map(x => x.textContent));
process.exit(l.length === 1 && l[0].textContent === 'r1' ? 0 : 1);
"""), {"dom.js": DOM})

bug("c30-parent-kept", "C30", [("ort-json.ts", """				this.showcl(e, 'config-role-parent-none');
				this.replcl(e, 'config-role-parent', '');
""", """				this.showcl(e, 'config-role-parent-none');
				if (role.name !== 'all')
					this.replcl(e, 'config-role-parent', '');
""")], "an element filled in with one role and then with the role above all others", "the element keeps naming the former role's parent", page("""
roles { role r1 { role r2; }; };
struct s { field id int rowid; };
""", """
const e = new E('', new E('config-role-name'), new E('config-role-parent'));
const o = fmt(f), d = doc(f).config.rq;
o.fillRoleObj(e, d.r2); const a = e.kids[1].textContent;
const k = Object.keys(d).filter(x => d[x].parent === null);
let ok = a === 'r1' && k.length > 0;
for (const x of k) { o.fillRoleObj(e, d.r2); o.fillRoleObj(e, d[x]); ok = ok && e.kids[1].textContent === ''; }
process.exit(ok ? 0 : 1);
"""), {"dom.js": DOM})
