G = "Randomised exploration with a fixed seed; the evidence gives the number of cases of each class. "
CLAIM = {
 "C01": ("property-based testing: generated, edited and mutated configurations, acceptance and model compared with an independent reader of ort(5) (differential)", G),
 "C02": ("fuzzing: token-, byte- and structure-level mutation of generated and shipped inputs, all tools built with address and undefined-behaviour sanitizers; in the thorough tier also coverage-guided (libFuzzer)", G + "Memory errors are those the sanitizers can see."),
 "C03": ("property-based testing: generated configurations, JSON form compared with the generator's model (reference model)", G),
 "C04": ("property-based testing: generated configurations, round-trip and fixpoint through ort and ort-diff", G),
 "C05": ("property-based testing, metamorphic relation: presentations of one generated model through all tools", G),
 "C06": ("property-based testing: pairs of generated models, output compared with a reference difference", G),
 "C09": ("property-based testing: generated role trees and assignments, audits of every role compared with a reference closure (reference model)", G),
 "C10": ("property-based testing: generated configurations, validity and inverse of the JSON form", G),
  "C11": ("property-based testing: generated translations, extraction/join/update compared with a reference model", G),
 "C07": ("property-based testing: generated configurations and row histories, SQLite catalogue compared with the model and histories run differentially against an independently written schema", G),
 "C08": ("property-based testing: generated pairs of configurations and database contents, scripts executed and the result compared with the new model (reference model)", G),
 "C12": ("property-based testing: generated configurations and options, compiled and linked; the functions named by the model, header, objects and manual page compared (differential)", G),
 "C13": ("property-based testing, model-based histories: generated configurations compiled as C, generated histories of inserts, updates, deletes and transactions run in the program and in a reference database", G),
 "C14": ("property-based testing, model-based histories: generated C queries (terms, joins, order, limit, offset, distinct, groups) run on generated contents, results compared with a reference evaluation", G),
 "C15": ("property-based testing, model-based histories: generated C programs with passwords set, compared and verified, compared with a reference", G),
 "C16": ("property-based testing, model-based histories: generated role trees and assignments compiled as C, generated histories of role changes and operations ending in a refusal, compared with a reference of the access rules", G),
 "C17": ("property-based testing: generated configurations, contents and roles; JSON exported by compiled C read back by an independent reader and compared field by field with the fetched structures (differential)", G),
 "C18": ("property-based testing and fuzzing: JSON documents exported, generated, mistyped, truncated and mutated, imported by compiled C under the sanitizers, compared with a reference reader", G + "Memory errors are those the sanitizers can see."),
 "C19": ("property-based testing: generated limits compiled as C validators, called with generated and boundary inputs, acceptance and value compared with a reference reader of each type", G),
 "C20": ("property-based testing, model-based histories: generated TypeScript modules type-checked in strict mode and run over SQLite, generated histories compared with a reference database and reference evaluation", G),
 "C21": ("property-based testing, model-based histories: generated role trees and assignments as TypeScript, generated histories of role changes and operations ending in a refusal, compared with a reference of the access rules", G),
 "C22": ("property-based testing: generated TypeScript modules, exports compared field by field with the fetched structures, validators called with generated and boundary inputs and compared with a reference reader of each type", G),
 "C23": ("property-based testing: generated configurations, exported objects and documents; the printed script run on a small DOM and the filled document compared with a reference filler", G),
 "C24": ("property-based testing: generated enumerations and bit-fields, the constants read back from the compiled or executed C, TypeScript, JavaScript and Rust and from the JSON compared with the model (differential)", G),
 "C25": ("property-based testing, model-based histories: the generated Rust compiled over stand-ins of its crates and SQLite, histories of changes, queries, password searches, role changes and exports compared with the reference database and access rules", G),
 "C26": ("fault-injection fuzzing, differential: generated inputs, each run once as it is and once for each of many injected faults (failing allocation, opening, read, print, or short output) under address and undefined-behaviour sanitizers, compared with the run without a fault", G),
 "C27": ("property-based testing, differential and model-based: generated configurations (some with hundreds of references or stretched names), every statement read out of the generated C, TypeScript and Rust, prepared against the schema and, in generated histories, executed and compared with the reference database", G + "A statement that cannot be read out of the generated source is counted, not judged."),
 "C28": ("property-based testing, model-based histories and differential: generated histories of library calls in one process under address, leak and undefined-behaviour sanitizers, each call compared with the tool in a process of its own", G),
 "C29": ("property-based testing with a layout oracle and metamorphic: generated token lists written in a random layout with the place of every token known, compared with the positions and messages of the tools, and with those of the same tokens one per line; a reference parser for where mistakes of syntax are; a reference for the reasons of ort-sqldiff", G),
 "C30": ("property-based testing, model-based: generated configurations and pages of the documented classes filled in by ort-json.ts on a small DOM, once or several times, the whole page and the callbacks compared with a reference filler", G),
}
NOTE = {}
