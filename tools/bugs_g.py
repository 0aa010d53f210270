# Planted changes for the SQL statements (C27).
BUGS = []
def bug(id, property, edits, needs, breaks, demo, files=None):
    BUGS.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, demo=demo, files=files or {}))

# $t/q: one statement of the C source per line
STM = r"""
./ort-sql "$t/a.ort" >"$t/s.sql" || exit 1
./ort-c-source -S "$PWD" -h x.h "$t/a.ort" >"$t/a.c" 2>/dev/null || exit 1
python3 - "$t" <<'F' || exit 1
import re,sys
s=open(sys.argv[1]+"/a.c").read()
i=re.search(r"enum\s+stmt\s*\{",s).start(); j=s.index("\n};",s.index("stmts[STMT__MAX]"))
open(sys.argv[1]+"/p.c","w").write("#include <stdio.h>\n"+s[i:j+3]+'\nint main(void){for(int i=0;i<STMT__MAX;i++)puts(stmts[i]);return 0;}\n')
F
${CC:-cc} -w -o "$t/p" "$t/p.c" && "$t/p" >"$t/q" || exit 1
"""
PREP = STM + r"""
python3 - "$t" <<'F'
import sqlite3,sys
d=sqlite3.connect(":memory:"); d.executescript(open(sys.argv[1]+"/s.sql").read())
for q in open(sys.argv[1]+"/q"):
    try: d.execute("EXPLAIN "+q, [None]*q.count("?")).fetchall()
    except sqlite3.Error as e: sys.exit("%s: %s"%(e,q[:300]))
F
"""

bug("c27-alias-three", "C27", [("linker_aliases.c", """				(char)(*offs / 26 % 26) + 97,
				(char)(*offs % 26) + 97);
		else if""", """				(char)(*offs / 26 % 26) + 97,
				(char)(*offs % 25) + 97);
		else if""")], "more than 702 joined references in a configuration", "two of them get one alias, so a statement with both is ambiguous", r"""
python3 - >"$t/a.ort" <<'F'
print("struct z { field id int rowid; };")
for i in range(24):
    print("struct s%c { field id int rowid; %s list: name all; };" % (97 + i, " ".join("field z%did:z.id int; field z%d struct z%did;" % (j, j, j) for j in range(40))))
F
""" + PREP)

bug("c27-wrap-columns", "C27", [("lang.c", """				if (fprintf(f, "%s%c%s", spacer, 
				    delim, first ? "(" : " ") < 0)
					return 0;
				col = (ntabs + 1) * 8;
			} else if (fputc(first ? '(' : ',', f) == EOF)
""", """				if (fprintf(f, "%s%c ", spacer, 
				    delim) < 0)
					return 0;
				col = (ntabs + 1) * 8;
			} else if (fputc(first ? '(' : ',', f) == EOF)
""")], "a structure whose name is so long that the columns of its insertion begin on another line", "the insertion is not valid SQL", r"""
python3 - >"$t/a.ort" <<'F'
print("struct %s { field id int rowid; field x int; insert; };" % ("a" * 60))
F
""" + PREP)

bug("c27-join-prefix", "C27", [("lang.c", """			if (strcasecmp(a->name, name) == 0)
				break;

		assert(a != NULL);

		if (*count == 0""", """			if (strncasecmp(a->name, name, strlen(name)) == 0)
				break;

		assert(a != NULL);

		if (*count == 0""")], "two structure fields, the first one's name beginning with the second one's", "the second joins under the first one's alias", r"""
cat >"$t/a.ort" <<'F'
struct z { field id int rowid; field v text; };
struct a { field id int rowid; field xid:z.id int; field yid:z.id int; field zoo struct xid; field zo struct yid; list: name all; };
F
""" + PREP)

bug("c27-rust-trailing", "C27", [("lang-rust.c", """			if (fd->type != FTYPE_STRUCT)
				last = fd;
""", """			if (fd->type != FTYPE_STRUCT ||
			    fd->ref->source == last)
				last = fd;
""")], "a structure whose last field is a structure with the field before it for its reference", "the Rust statements have an empty column", r"""
cat >"$t/a.ort" <<'F'
struct z { field id int rowid; field v text; };
struct a { field id int rowid; field xid:z.id int; field x struct xid; list: name all; };
F
./ort-rust "$t/a.ort" >"$t/a.rs" || exit 1
python3 - "$t/a.rs" <<'F'
import re,sys
s=open(sys.argv[1]).read(); i=s.index("fn stmt_a("); b=s[i:s.index("}\n",i)]
c="".join(re.findall(r'format!\("([^"]*)"', b)).replace(" ","")
sys.exit(c != "{}.id,{}.xid")
F
""")
