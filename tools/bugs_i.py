# Planted changes for positions and messages (C29).
BUGS = []
def bug(id, property, edits, needs, breaks, demo, files=None):
    BUGS.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, demo=demo, files=files or {}))

bug("c29-cr-lines", "C29", [("parser.c", """	if ('\\n' == c) {
		p->line++;
		p->column = 0;
	}

	return c;
""", """	if ('\\n' == c || '\\r' == c) {
		p->line++;
		p->column = 0;
	}

	return c;
""")], "a configuration with carriage returns at the ends of its lines", "lines are counted twice, so that every position and message names a line that is not the object's (or none of the file)",
r"""
printf 'struct foo {\r\n field id int rowid;\r\n field x enum nosuch;\r\n};\r\n' >"$t/a.ort"
./ort "$t/a.ort" 2>"$t/e" && exit 1
cat "$t/e"
grep -Eq 'a.ort:[1-4]:[0-9]+: error' "$t/e"
""")

bug("c29-bit-swap", "C29", [("lang-sql.c", """			diff_errx(mq, &d->bitidx_pair.from->pos, 
			  	&d->bitidx_pair.into->pos,
""", """			diff_errx(mq, &d->bitidx_pair.into->pos, 
			  	&d->bitidx_pair.from->pos,
""")], "an upgrade that is refused for a bit whose number has changed", "the message gives the places in the old and new file the wrong way round",
r"""
cat >"$t/old.ort" <<'E'
bits foo { item one 1; };
struct bar { field id int rowid; field e bits foo; };
E
cat >"$t/new.ort" <<'E'
# moved


bits foo { item one 2; };
struct bar { field id int rowid; field e bits foo; };
E
./ort-sqldiff "$t/old.ort" "$t/new.ort" 2>"$t/e" && exit 1
cat "$t/e"
grep -q 'old.ort:1:[0-9]*: error: .*new.ort:4:' "$t/e"
""")

bug("c29-order-pos", "C29", [("parser_struct.c", """	ord->op = ORDTYPE_ASC;
	parse_point(p, &ord->pos);
	TAILQ_INSERT_TAIL(&srch->ordq, ord, entries);
""", """	ord->op = ORDTYPE_ASC;
	TAILQ_INSERT_TAIL(&srch->ordq, ord, entries);
	if (ord == TAILQ_FIRST(&srch->ordq))
		parse_point(p, &ord->pos);
	else
		ord->pos = TAILQ_FIRST(&srch->ordq)->pos;
""")], "a query with two order terms on different lines, the second of which is wrong", "the message about it is on the line of the first order term",
r"""
cat >"$t/a.ort" <<'E'
struct bar {
	field id int rowid;
	field x int;
	list: name foo order
		x desc,
		nosuch asc;
};
E
./ort "$t/a.ort" 2>"$t/e" && exit 1
cat "$t/e"
grep -q 'a.ort:6:[0-9]*: error' "$t/e"
""")

bug("c29-ungetc-number", "C29", [("parser.c", """		if (parse_check_error(p))
			return(parse_read_err(p));
		else if ( ! parse_check_eof(p))
			parse_ungetc(p, c);

		if ( ! buf_push(p, '\\0'))
			return TOK_ERR;
		if (hasdot) {
""", """		if (parse_check_error(p))
			return(parse_read_err(p));
		else if ( ! parse_check_eof(p) && ! isspace(c))
			parse_ungetc(p, c);

		if ( ! buf_push(p, '\\0'))
			return TOK_ERR;
		if (hasdot) {
""")], "a number that ends its line and is itself wrong", "the message is on the line after the number's",
r"""
printf 'bits foo {\n item one 1;\n item two 99\n;\n};\nstruct bar { field id int rowid; };\n' >"$t/a.ort"
./ort "$t/a.ort" 2>"$t/e" && exit 1
cat "$t/e"
grep -q 'a.ort:3:[0-9]*: error' "$t/e"
""")
