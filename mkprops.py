#!/usr/bin/env python3
# Regenerates /verif/properties.jsonl (kept as a script because JSONL is tedious to edit by hand).
import json,os
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,obs=None):
    a={"files":files,"mechanism":[{"name":m[0],"where":m[1]} for m in mech]}
    if state: a["state"]=[{"name":s[0],"meaning":s[1],"where":s[2]} for s in state]
    if obs: a["observe_at"]=obs
    a["hook_needed"]=None
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

p("C01","A configuration is accepted exactly when it obeys the ort(5) rules",
 "Every configuration that obeys the rules of ort(5) is accepted by every tool, and every configuration that breaks one of the stated rules (unknown or duplicate names, reserved words, wrong types for an operator, modifier, limit, default or action, bad references, recursive sub-structures, duplicate unique statements, truncated input, ...) is refused with a diagnostic and a non-zero exit. Acceptance does not depend on the rest of the configuration being large, small or unusual.",
 ["inputs"],"for every configuration built from the grammar, and every single-rule violation of it",
 "The regression tests hold about 125 accepted and 98 refused files; the rule space (rule x type x operator x position x nesting x surrounding objects) is far larger.",
 ["parser.c","parser_struct.c","parser_field.c","parser_enum.c","parser_bitfield.c","parser_roles.c","linker.c","linker_resolve.c","linker_aliases.c"],
 [("lexer and recursive-descent parser","parser.c parse_next, parse_root; parser_*.c"),("name resolution and type rules","linker_resolve.c"),("semantic checks","linker.c")],
 obs=["exit status and diagnostics of ort(1)"])

p("C02","No input makes a tool crash, corrupt memory, leak or hang",
 "For any bytes given as configuration, previous configuration or translation file, every tool terminates promptly, without a crash, abort, failed assertion, memory error, undefined behaviour or leak, and either produces its output or reports an error with a non-zero exit.",
 ["inputs"],"for every byte string, in particular mutated, truncated and spliced configurations",
 "Tests feed a fixed list of files to non-instrumented binaries; memory errors on odd inputs pass silently.",
 ["parser.c","parser_struct.c","parser_field.c","parser_roles.c","parser_enum.c","parser_bitfield.c","config.c","linker_resolve.c","linker_aliases.c","writer.c","writer-diff.c","diff.c","lang-sql.c","lang-c-source.c","lang-c-header.c","lang-nodejs.c","lang-javascript.c","lang-rust.c","lang-json.c","lang-xliff.c","lang-c-manpage.c"],
 [("error propagation","parser.c PARSE_STOP, parse_errx"),("ownership and release","config.c ort_config_free"),("generators over a linked configuration","lang-*.c")],
 obs=["process status under AddressSanitizer, UBSan and LeakSanitizer"])

p("C03","The parsed configuration is what was written",
 "The data model that the tools derive from a configuration is the one written: every structure, field (type, reference, nullability, row identifier, uniqueness, defaults, limits, update/delete actions, comments), enumeration item (including automatically assigned values), bit index, label, query, update, delete, insert, unique statement and role assignment is present exactly once with the written content, in the documented order, and nothing else is.",
 ["inputs"],"for every accepted configuration",
 "Expected-output tests compare the canonical text of a few dozen hand-written files with a stored copy.",
 ["parser_struct.c","parser_field.c","parser_enum.c","parser_bitfield.c","parser_roles.c","linker.c","linker_resolve.c","lang-json.c"],
 [("construction of the model","parser_*.c"),("automatic enumeration values","parser_enum.c"),("role maps (all, noexport)","linker_resolve.c resolve_struct_rolemap*"),("JSON rendering","lang-json.c")],
 obs=["ort-json(1) output, compared with the generating model"])

p("C04","ort(1) output is canonical and lossless",
 "Formatting an accepted configuration with ort(1) gives a configuration that is itself accepted, that ort-diff(1) finds identical to the original, and that formatting again reproduces byte for byte.",
 ["inputs"],"for every accepted configuration",
 "Tests compare stored outputs only; they never feed an output back for arbitrary content (defaults, limits, string escapes, empty update clauses, role maps).",
 ["writer.c","main.c","parser.c"],
 [("canonical writer","writer.c ort_write_file")],
 obs=["ort(1) stdout, ort-json(1) of both, ort-diff(1) exit status"])

p("C05","Presentation does not change meaning",
 "White-space, hash-comments, CRLF in strings, identifier case, the order of top-level objects, the order of statement kinds in a structure and the splitting of a configuration over several files change neither acceptance nor the canonical output nor the generated artifacts.",
 ["inputs"],"for every accepted configuration and every re-rendering of it",
 "Tests have one rendering per configuration.",
 ["parser.c","parser_struct.c","linker.c","main.c","config.c"],
 [("lexer","parser.c parse_next"),("late name resolution","linker_resolve.c"),("structure ordering","linker.c parse_cmp")],
 obs=["ort(1), ort-json(1), ort-sql(1), ort-diff(1)"])

p("C06","ort-diff reports exactly the differences",
 "ort-diff(1) exits 0 and lists no difference (only the two file names) exactly when the two configurations denote the same model (whatever their layout and object order); otherwise it exits 1 and names each added, removed or changed object (structures, fields, queries, updates, inserts, unique statements, enumerations, bit-fields and their items, roles) and no unchanged one. Swapping the arguments turns additions into removals and the reverse.",
 ["inputs"],"for every pair of accepted configurations, in particular ones a few edits apart",
 "Tests hold a few dozen stored pairs, each with one kind of edit.",
 ["diff.c","writer-diff.c","maindiff.c"],
 [("object matching","diff.c ort_diff and ort_diff_*"),("rendering","writer-diff.c"),("exit status","maindiff.c")],
 obs=["ort-diff(1) output and exit status"])

p("C07","ort-sql produces a schema that enforces the model",
 "The schema printed by ort-sql(1) loads into SQLite with foreign keys on, and the database it creates has exactly the tables and columns of the model, with matching storage class, nullability, row identifier, uniqueness (single and combined) and foreign keys with the written update and delete actions, as observed by inserting, updating and deleting rows.",
 ["inputs","histories"],"for every accepted configuration and every sequence of row operations on its schema",
 "Tests only check that sqlite3 parses the schema of fixed configurations.",
 ["lang-sql.c","sql.c","linker.c"],
 [("table and index generation","lang-sql.c gen_struct, gen_field, gen_unique, gen_fkeys"),("structure ordering","linker.c")],
 obs=["SQLite catalogue and constraint behaviour of the loaded schema"])

p("C08","ort-sqldiff migrates a live database or refuses",
 "When ort-sqldiff(1) succeeds, running its output on a database with the old schema and data gives a database equivalent to one created by ort-sql(1) for the new configuration, with every surviving row and column value preserved and added columns holding their default. Changes it cannot express safely (column type or flag changes, removals without the destructive flag, ...) are refused with a non-zero exit and no script.",
 ["inputs","histories"],"for every pair of accepted configurations and every content of the old database",
 "Tests compare stored scripts and check refusals for fixed pairs; scripts are not executed against data.",
 ["lang-sql.c","sqldiff.c","diff.c"],
 [("migration script","lang-sql.c ort_lang_diff_sql and gen_diff_*")],
 obs=["ort-sqldiff(1) exit status, and SQLite after applying old schema, data and the script"])

p("C09","ort-audit reports exactly what a role may do and see",
 "For every role, ort-audit(1) lists precisely the operations which that role (through its own assignments and those of its ancestors and of the role set 'all') may invoke, with, for each reachable structure, exactly the fields that would be exported to it, and nothing for operations it may not invoke; ort-audit-json(1) reports the same facts as well-formed JSON.",
 ["inputs"],"for every accepted configuration with roles, and every role",
 "Tests hold a few stored audits; access is a function of the whole role tree, assignments and structure graph.",
 ["audit.c","mainaudit.c","audit-json.c","linker_resolve.c"],
 [("role closure","audit.c check_role"),("field export","audit.c"),("rendering","mainaudit.c, audit-json.c")],
 obs=["ort-audit(1) and ort-audit-json(1) output"])

p("C10","ort-json output is valid and convertible back",
 "ort-json(1) always prints one well-formed JSON document of the documented shape, and converting that document back to a configuration with the supplied ort-json.ts gives a configuration that ort-diff(1) finds identical to the original.",
 ["inputs"],"for every accepted configuration",
 "Tests run the conversion on the fixed regression files only.",
 ["lang-json.c","json.c","ort-json.ts"],
 [("JSON rendering","lang-json.c"),("conversion back","ort-json.ts ortJsonConfigFormat")],
 obs=["ort-json(1) stdout; ort-diff(1) of the converted configuration"])

p("C11","Translations survive extraction, update and joining",
 "ort-xliff(1) extracts every distinct label of a configuration exactly once as well-formed XLIFF. Joining a translated XLIFF file yields a configuration whose labels for that language are exactly the given translations and which is otherwise unchanged, and updating a translation file keeps every still-valid translation and covers exactly the current labels.",
 ["inputs"],"for every accepted configuration with labels and every translation of them, including text with markup characters",
 "Tests compare stored XLIFF files for ASCII labels.",
 ["lang-xliff.c","xliff.c","writer.c"],
 [("extraction","lang-xliff.c xliff_extract*"),("joining and updating","lang-xliff.c xliff_join_*, xliff_update"),("XML escape","lang-xliff.c escape, unescape")],
 obs=["ort-xliff(1) output"])

p("C12","Generated C always compiles and agrees with its header",
 "For every accepted configuration and every combination of the output options, the C header and source from ort-c-header(1) and ort-c-source(1) compile together without errors, the source defines exactly the functions which the header declares, and ort-c-manpage(1) documents exactly those functions.",
 ["inputs","configurations"],"for every accepted configuration and option set",
 "Generated C is never compiled by the tests that run here.",
 ["lang-c-header.c","lang-c-source.c","lang-c.c","lang-c-manpage.c","lang.c","cheader.c","csource.c"],
 [("prototypes","lang-c.c gen_func_db_*"),("structure ordering","linker.c"),("bodies","lang-c-source.c")],
 obs=["gcc on the generated files; nm on the object"])

p("C13","Generated C stores and changes data as declared",
 "Through the generated C API, an insert stores exactly the given values (null where told) and returns the new row identifier or a failure when a constraint is violated; an update or delete changes exactly the rows selected by its constraints, setting, incrementing, decrementing or concatenating as declared, reports constraint failures, and touches nothing else.",
 ["inputs","histories"],"for every accepted configuration and every sequence of operations",
 "No test runs generated C here; the sequence and schema space is unbounded.",
 ["lang-c-source.c","lang-c.c","lang.c"],
 [("SQL for insert, update, delete","lang.c gen_sql_stmts"),("parameter binding","lang-c-source.c gen_insert, gen_update, gen_bind")],
 obs=["return values and database content through a recorded SQLite-backed sqlbox"])

p("C14","Generated C queries return exactly the matching rows",
 "Each search, list, iterate and count function returns exactly the rows selected by its terms (with the declared operators, nested structures and null semantics), in the declared order, restricted by limit and offset, by distinct and by row grouping, with every column and every (possibly null) sub-structure filled with the stored values.",
 ["inputs","histories"],"for every accepted configuration, database content and argument values",
 "No test runs generated C here.",
 ["lang.c","lang-c-source.c","linker_aliases.c"],
 [("query SQL and aliases","lang.c gen_sql_stmts; linker_aliases.c"),("row filling","lang-c-source.c gen_fill, gen_reffind"),("parameter binding","lang-c-source.c gen_search, gen_list, gen_iterator, gen_count")],
 obs=["structures returned by the generated functions"])

p("C15","Passwords are stored hashed and matched by hash",
 "In the generated APIs a password given to an insert or update is stored only as a hash (unless strset is declared), eq and neq queries on a password match exactly the rows whose hash does or does not verify the given password (streq and strneq compare the stored text), null passwords never match, and no export contains a password or its hash.",
 ["inputs","histories"],"for every accepted configuration with passwords, mixed with other terms, and every content",
 "No test runs generated C here.",
 ["lang-c-source.c","lang-nodejs.c","lang.c"],
 [("hashing on bind","lang-c-source.c gen_bind_hash, gen_bind"),("verification after fetch","lang-c-source.c gen_checkpass"),("omission of password terms from SQL","lang.c")],
 obs=["database content and results of queries"])

p("C16","Generated C enforces role-based access control",
 "With roles defined, the generated C API completes an operation exactly when the current role is one of, or a descendant of one of, the roles assigned to it (default deny), terminates the program otherwise, and permits role changes only as documented (towards ancestors from ordinary roles, to anything from the default role, to none from everywhere).",
 ["inputs","histories"],"for every role tree, assignment, current role and sequence of role changes",
 "No test runs generated C here.",
 ["lang-c-source.c","linker_resolve.c"],
 [("sqlbox role hierarchy","lang-c-source.c gen_open"),("role checks","lang-c-source.c gen_func_rolecases, gen_func_role_*")],
 obs=["termination or completion of each call under each role"])

p("C17","Generated C JSON export is complete, valid and filtered",
 "The generated JSON export prints well-formed JSON holding every exportable field of the structure and its sub-structures with the stored value, in a form that reads back to the same value, and never a field marked noexport, a password, or a field not exported to the role that fetched the data.",
 ["inputs","histories"],"for every accepted configuration, row content and role",
 "No test runs generated C here.",
 ["lang-c-source.c","lang-c.c"],
 [("export","lang-c-source.c gen_json_out, gen_func_json_*"),("role of the stored row","lang-c-source.c priv_store")],
 obs=["JSON text produced through a recording kjson"])

p("C18","Generated C JSON import accepts exports and survives anything",
 "The generated JSON parsing functions accept the structure's own exported form and recover the same values, reject mistyped values, and for arbitrary or truncated bytes return an error without any memory error or leak.",
 ["inputs"],"for every accepted configuration and every byte string",
 "No test runs generated C here.",
 ["lang-c-source.c","jsmn.c"],
 [("token parser","jsmn.c"),("per-field conversion","lang-c-source.c gen_json_parse")],
 obs=["results of jsmn_<struct> functions under sanitizers"])

p("C19","Generated C validators accept exactly the permitted values",
 "The generated field validator of each field accepts a value exactly when it is of the field's type, is a declared value (for enumerations and bit indices) and satisfies every declared limit (numeric value, or byte length for text, passwords, e-mail and blobs).",
 ["inputs"],"for every field type, every set of limits and every value, in particular at the boundaries",
 "No test runs generated C here.",
 ["lang-c-source.c"],
 [("validators","lang-c-source.c gen_valids_field")],
 obs=["return value of valid_<struct>_<field>"])

p("C20","Generated TypeScript API behaves as the model",
 "For every accepted configuration ort-nodejs(1) prints a module that type-checks and whose insert, update, delete, search, list, iterate, count and transaction functions have the effects and results the configuration declares, with the same rows, order, sub-structures and null handling as the reference semantics.",
 ["inputs","histories"],"for every accepted configuration and every sequence of operations",
 "Tests only transpile the module for fixed configurations; nothing is executed.",
 ["lang-nodejs.c","nodejs.c","lang.c"],
 [("query functions","lang-nodejs.c gen_query, gen_reffind, gen_fill"),("modifiers","lang-nodejs.c gen_insert, gen_modifier"),("SQL","lang.c gen_sql_stmts")],
 obs=["module executed under node with a SQLite-backed driver"])

p("C21","Generated TypeScript enforces roles",
 "With roles defined, the generated module completes an operation exactly when the current role is one of, or a descendant of one of, the roles assigned to it (default deny), throws or exits otherwise, and permits role changes only as documented.",
 ["inputs","histories"],"for every role tree, assignment, current role and sequence of role changes",
 "Nothing generated is executed by the tests.",
 ["lang-nodejs.c","linker_resolve.c"],
 [("operation checks","lang-nodejs.c gen_rolemap, gen_role"),("role transitions","lang-nodejs.c db_role")],
 obs=["exceptions and completions under node"])

p("C22","Generated TypeScript export and validators follow the model",
 "The generated export functions return every exportable field with its stored value and never a noexport field, a password or a field not exported to the fetching role; the generated validators accept exactly the values of the field's type within its limits.",
 ["inputs","histories"],"for every accepted configuration, row content, role and candidate value",
 "Nothing generated is executed by the tests.",
 ["lang-nodejs.c","ort-json.ts"],
 [("export","lang-nodejs.c gen_output"),("validators","lang-nodejs.c gen_ortns_validator")],
 obs=["module executed under node"])

p("C23","Generated JavaScript fills documents with the exported data",
 "For every accepted configuration ort-javascript(1) prints a TypeScript script that compiles and runs, and whose fill functions put each exported value, sub-structure, enumeration or bit-field label (in the document's language, falling back to the default) and null marker into exactly the elements that ask for it; its 64-bit integers read, compare and print exactly.",
 ["inputs"],"for every accepted configuration, exported object and document using the documented classes",
 "Tests run the script's internals on fixed fragments (needs jsdom), not the per-configuration classes.",
 ["lang-javascript.c","javascript.c","ortPrivate.ts"],
 [("per-structure filling","lang-javascript.c gen_obj*"),("document helpers","ortPrivate.ts")],
 obs=["a small DOM after fill()"])

p("C24","Enumeration and bit-field constants agree everywhere",
 "The numeric values of enumeration items and bit-field items are the written or automatically assigned ones, identically in the C header, the TypeScript module, the JavaScript, the Rust output and the JSON description, including negative, extreme and bit-63 values.",
 ["inputs"],"for every accepted configuration with enumerations or bit-fields",
 "Tests compile fixed files and never compare values between outputs.",
 ["parser_enum.c","parser_bitfield.c","lang-c-header.c","lang-nodejs.c","lang-javascript.c","lang-rust.c","lang-json.c"],
 [("automatic values","parser_enum.c parse_enum_data"),("constants","lang-*.c")],
 obs=["values read back from each compiled or executed output"])
p("C25","Generated Rust API behaves as the model",
 "For every accepted configuration ort-rust(1) prints a Rust module that compiles with the interface its manual documents, whose inserts, updates, deletions, queries and password terms change and return exactly what the configuration says, whose role checks deny everything not granted, and whose exports hold exactly the exportable fields in valid JSON with their stored values.",
 ["inputs","histories"],"for every accepted configuration, role and history of operations",
 "No test compiles or executes the generated Rust.",
 ["lang-rust.c","lang.c","lang-sql.c"],
 [("operations","lang-rust.c gen_insert, gen_update, gen_query, gen_reffind"),("roles","lang-rust.c gen_rolemap, gen_ortctx_dbrole"),("export","lang-rust.c gen_field_to_json")],
 obs=["return values of the compiled methods, tables read back, exported JSON, refusals"])
p("C26","A failing resource never passes for success",
 "For every input, and whichever single allocation, file opening, read or print fails (or all allocations from some point on), or however little output fits, every tool either ends with exactly the status and output it has without the fault, or ends with its failure status (1; 2 from ort-diff) and a diagnostic. It never crashes, corrupts memory or hangs, never ends in success with missing or different output, and never accepts what it otherwise refuses; a directory given for a file is refused.",
 ["inputs","faults"],"for every configuration, tool and option, and for every point at which a resource may fail",
 "Tests run with memory and disk to spare: no error path of an allocation or a write is ever taken.",
 ["main.c","parser.c","linker.c","linker_resolve.c","diff.c","audit.c","writer.c","lang-c-source.c","lang-sql.c","lang-xliff.c","lang-json.c","lang-nodejs.c","lang-rust.c","lang-javascript.c","lang-c-header.c","lang-c-manpage.c"],
 [("allocation","linker_resolve.c, diff.c diff_alloc, lang.c gen_print"),("printing","main of every tool; the generators' return values"),("reading","parser.c ort_parse_file, lang-xliff.c")],
 obs=["exit status, standard output and diagnostics with and without the fault"])
p("C27","Generated SQL statements mean what the configuration says",
 "For every accepted configuration, of any size, every SQL statement in the generated C, TypeScript and Rust is valid against the schema of ort-sql(1), takes the parameters and gives the columns that its operation has, and, executed on a database, selects, inserts, updates and deletes exactly the rows that the configuration says, alike in all three languages.",
 ["inputs","histories"],"for every accepted configuration, however many references and however long its names, and every history of operations",
 "Tests print statements for fixed files and never prepare or execute one.",
 ["lang.c","linker_aliases.c","lang-c-source.c","lang-nodejs.c","lang-rust.c","lang-sql.c"],
 [("statement text","lang.c gen_sql_stmts"),("aliases of joined structures","linker_aliases.c linker_aliases_create"),("columns","lang.c gen_sql_stmt_schema")],
 obs=["statements in the generated sources; the database's answer to each; tables and results after a history"])
p("C28","The library behaves alike in every history of calls",
 "For every history of calls of the library (configurations allocated, parsed from files, refused, closed, written in every format, compared, audited, translated and freed, any number of them interleaved in one process), each call returns, writes and reports exactly what it does in a process of its own; calls on a const configuration leave it unchanged; joining translations leaves a configuration like the one read from what the join writes; nothing crashes, reads freed memory or leaks.",
 ["inputs","histories"],"for every interleaving of documented calls on any configurations and translations",
 "Tests call each function once, on one configuration, in a process of its own.",
 ["config.c","parser.c","linker.c","linker_aliases.c","diff.c","audit.c","log.c","writer.c","writer-diff.c","lang.c","lang-c-source.c","lang-c-header.c","lang-c-manpage.c","lang-javascript.c","lang-json.c","lang-nodejs.c","lang-rust.c","lang-sql.c","lang-xliff.c"],
 [("ownership","config.c ort_config_free, log.c ort_log, diff.c ort_diffq_free, audit.c ort_auditq_free"),("joining in place","lang-xliff.c xliff_join_unit"),("const outputs","ort_lang_*, ort_write_file")],
 obs=["status, output and messages of every call; sanitizer and leak reports"])
p("C29","Positions and messages name the place they are about",
 "Every position that the tools report is that of what it is about: in ort-json(1) the file, line and column of each object are those of its name, keyword or clause as written; ort-audit(1) gives the place of the operation; every message about a configuration has the form file:line:column: kind: text and names the mistake (for mistakes of syntax the offending token, for references to nothing and things given twice their statement), whatever the layout, comments, line ends and number of files; ort-sqldiff(1) gives for each reason the place in the old and new file; and messages come in the order in which they arise.",
 ["inputs"],"for every accepted or refused configuration in every layout over one or several files, and every pair of configurations",
 "Tests compare fixed files, mostly ignore messages and never change the layout.",
 ["parser.c","parser_enum.c","parser_bitfield.c","parser_field.c","parser_roles.c","parser_struct.c","linker.c","linker_resolve.c","log.c","lang-json.c","lang-sql.c","mainaudit.c"],
 [("counting lines","parser.c parse_nextchar, parse_ungetc"),("positions of objects","parse_point and its callers"),("messages","log.c ort_log, gen_msg; linker.c gen_errx; parser.c parse_errx"),("reasons","lang-sql.c diff_errx, gen_warnx")],
 obs=["pos of ort-json; places of ort-audit; standard error of every tool"])
p("C30","ort-json.ts fills pages with exactly the configuration",
 "For every configuration as ort-json(1) writes it and every page, each filling method of ortJson.ortJsonConfigFormat leaves the page as the documentation in ort-json.ts describes it: every element with a documented class has the text, value, identifier, link or mark of its object, everything shown or hidden agrees with what the object has, each list has its first element once for each of its objects in the order of their names (anonymous operations, unique tuples, terms and roles as given) and is hidden when there are none, nothing else changes, callbacks get each object and the given argument once it is filled in, and links lead to the identifiers of what they name; also for pages that were filled in before, by any configuration.",
 ["inputs","histories"],"for every configuration, every page and any number of fillings of it",
 "No test runs ort-json.ts.",
 ["ort-json.ts"],
 [("sets","ort-json.ts fillStrctSet, fillRoleSet, fillEnumSet, fillBitfSet"),("objects","fillStrctObj, fillFieldObj, fillUpdateObj, fillSearchObj, fillRoleObj, fillEnumObj, fillBitfObj and their items"),("what is there or not","fillComment, fillRolemap, fillLabelSet")],
 obs=["the whole document after each call; the calls of the callbacks"])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"properties.jsonl")
with open(out,"w") as f:
    for x in P:
        assert len(x["title"])<=80,(x["id"],len(x["title"]))
        f.write(json.dumps(x)+"\n")
print(len(P))
