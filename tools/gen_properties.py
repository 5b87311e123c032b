#!/usr/bin/env python3
"""Writes /verif/properties.jsonl. One entry per property; edit here."""
import json
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=list(observe), hook_needed=hook)))

SF="semantics/oca-file/src/"; SB="semantics/oca-bundle/src/"; SA="semantics/oca-ast/src/"; OC="oca/src/"; TR="transformation/"

p("C01","OCAFile parsing is faithful",
 "Parsing an OCAFile yields exactly the instructions written in it, in order: every attribute name, attribute type (including arrays and references), language, property and value appears unchanged, and so does the file's metadata. Letter case of keywords, blank lines, comments, extra white space, line continuations and the quoting style never change the result. A name written twice within one instruction has the value written last.",
 ["inputs"],"every instruction sequence the OCAFile language can express with valid identifiers, and every legal layout of it (nesting of array types up to 8); keys of framing objects are read in lower case, and the value of `lang` in META is the language",
 "Tests parse a handful of fixed strings per instruction; they cannot cover combinations of instruction, value alphabet, quoting and layout.",
 [SF+"ocafile.pest",SF+"ocafile/mod.rs",SF+"ocafile/instructions/add.rs",SF+"ocafile/instructions/helpers.rs",SF+"ocafile/instructions/remove.rs",SF+"ocafile/instructions/from.rs","oca-file/src/ocafile/mod.rs"],
 [("pest grammar",SF+"ocafile.pest"),("pair extraction into AST",SF+"ocafile/instructions/helpers.rs")],
 observe=["oca_file::ocafile::parse_from_string result"])
p("C02","No OCAFile text crashes the system",
 "Whatever text is given as an OCAFile, parsing, validating and building it either succeeds or returns an error: it never panics, aborts or hangs, and after an error the same facade still builds correct files as before. A bundle that was accepted can also be turned back into OCAFile text without a crash.",
 ["inputs"],"all texts up to 64 KiB with nesting depth up to 64: well-formed files, files with semantically wrong content (unknown languages, undefined attributes, bad references), mutated and random bytes",
 "Tests use inputs known to be good or one known-bad line; a crash needs an unusual combination.",
 [SF+"ocafile/mod.rs",SB+"build.rs",OC+"facade/build.rs","oca-file/src/ocafile/mod.rs"],
 [("error values instead of unwrap",SB+"build.rs"),("AST validation",SA+"validator.rs")],
 observe=["Facade::validate_ocafile","Facade::build_from_ocafile","facade::build::build_from_ocafile"])
p("C03","Instructions are accepted or rejected by the documented rules",
 "In one OCAFile, adding an attribute that is already defined is rejected, and so is removing an attribute or classification that is not defined at that point; an attribute may be added again after its removal. Overlay instructions that name an attribute not defined at that point are rejected when building. Everything that obeys these rules is accepted.",
 ["inputs","histories"],"all sequences of add and remove instructions over a small set of names, with or without overlays, of length up to about 30",
 "Tests check one duplicate and one missing removal; the rules depend on the whole preceding instruction history.",
 [SA+"validator.rs",SB+"build.rs"],
 [("rule_add_attr_if_not_exist / rule_remove_attr_if_exist",SA+"validator.rs"),("Undefined attribute errors",SB+"build.rs")],
 observe=["parse_from_string result","from_ast result"])
p("C04","A built bundle says exactly what its instructions say",
 "Building an OCAFile gives a bundle whose capture base has exactly the attributes, types, classification and flagged attributes the instructions leave defined, and whose overlays carry exactly the values given for those attributes, one overlay per kind (and per language, link target or frame where the kind has one). A later simple value replaces an earlier one for the same attribute; values for other attributes, languages, targets or frames are kept; removing an attribute removes everything said about it.",
 ["inputs","histories"],"all accepted instruction sequences, all overlay kinds, values and languages the OCAFile language can express",
 "Tests build a few fixed bundles and compare a SAID; they do not cover re-definition, removal and interleaving of overlay kinds.",
 [SB+"build.rs",SB+"state/attribute.rs",SB+"state/oca.rs",SB+"state/oca/overlay.rs",SB+"state/oca/capture_base.rs"],
 [("apply_command",SB+"build.rs"),("Attribute::merge",SB+"state/attribute.rs"),("generate_overlays",SB+"state/oca.rs")],
 observe=["encoded bundle JSON"])
p("C05","Same content always gives the same identifier and bytes",
 "Building the same OCAFile again, in the same or another process, gives a byte-identical encoded bundle and identical identifiers for the bundle, its capture base and every overlay. The order in which independent instructions are given, the order of attributes inside an instruction and the layout of the text do not change any identifier; different content gives different identifiers.",
 ["inputs","schedules"],"all accepted OCAFiles; all hash seeds of the process (many processes and repeated builds), all reorderings of attributes within an instruction and of independent instructions",
 "The containers involved iterate in random order, so a single test run shows one order; determinism is a statement about all of them.",
 [SB+"state/oca.rs",SB+"state/oca/capture_base.rs",SB+"state/oca/overlay.rs",SB+"state/oca/overlay/attribute_framing.rs",SB+"state/oca/overlay/label.rs",SB+"state/oca/overlay/entry.rs"],
 [("sorted serialization",SB+"state/oca/overlay.rs"),("overlay ordering by SAID",SB+"state/oca.rs")],
 observe=["Encode output","said fields"])
p("C06","Every identifier is the digest of its content",
 "In every bundle the system produces, the identifier of the bundle, of the capture base and of each overlay equals the Blake3-256 self-addressing digest of that object's own serialized content, the version string states the true length, and every overlay names the identifier of the bundle's capture base. This also holds for every intermediate bundle of a build and for every stored object.",
 ["inputs","histories"],"all accepted OCAFiles, every build step, every stored bundle, capture base and overlay",
 "Tests compare against SAIDs computed by the same code on fixed inputs; an independent recomputation over all contents is needed.",
 [SB+"state/oca.rs",SB+"state/oca/capture_base.rs",SB+"state/oca/overlay.rs",OC+"facade/build.rs"],
 [("fill_said / sign",SB+"state/oca.rs")],observe=["encoded bundle JSON","storage contents"])
p("C07","Tampering is detected, genuine bundles pass validation",
 "The bundle validator accepts every bundle the system built whose conditions are well formed. If any attribute, type, overlay value, language, link target, or identifier in such a bundle is changed without recomputing identifiers, or an overlay of this or another capture base is put in, validation reports an error.",
 ["inputs","fault_sequences"],"all built bundles and all single-field changes of their JSON that still load",
 "Tests tamper with one capture base and one overlay field.",
 [SB+"state/validator.rs",SB+"controller.rs"],
 [("SAID recomputation in validate",SB+"state/validator.rs")],observe=["Validator::validate result"])
p("C08","Bundle JSON round trip",
 "Loading the encoded JSON of any bundle and encoding it again gives the same bytes, and rebuilding a bundle from a loaded one (taking it apart into attributes and assembling it again) gives the same identifiers. Malformed bundle JSON is refused with an error and never crashes.",
 ["inputs"],"all built bundles with every overlay kind; all single mutations of their JSON",
 "Tests load a few fixed JSON files.",
 [SB+"state/oca.rs",SB+"controller.rs",SB+"state/oca/overlay.rs",SA+"ast/attributes.rs"],
 [("DynOverlay deserialize / serialize_overlays",SB+"state/oca.rs"),("From<OCABundle> for OCABox",SB+"state/oca.rs")],
 observe=["load_oca","serde round trip"])
p("C09","OCAFile regeneration loses nothing",
 "OCAFile text generated from an instruction list parses back to the same instruction list, and OCAFile text generated from a bundle builds a bundle with the same identifier.",
 ["inputs"],"all instruction lists obtained by parsing an OCAFile with valid identifiers, all bundles built from OCAFiles; values are single-line",
 "One test regenerates one fixed OCAFile; each overlay kind and value shape has its own printing code.",
 [SF+"ocafile/mod.rs",SB+"state/oca.rs",OC+"facade/fetch.rs"],
 [("generate_from_ast",SF+"ocafile/mod.rs"),("OCABundle::to_ast",SB+"state/oca.rs")],observe=["generate_from_ast","parse_oca_bundle_to_ocafile"])
p("C10","Instruction lists survive JSON",
 "Serializing an instruction list (or a single instruction) to JSON and reading it back gives an equal value, and serializing that again gives the same JSON (the order of the file's metadata aside), for OCAFile and transformation instruction lists alike. Malformed JSON is refused with an error, never a crash.",
 ["inputs"],"all instruction lists the OCAFile and transformation languages can express with valid identifiers",
 "Tests round-trip two fixed lists; (de)serializers are hand written per kind.",
 [SA+"ast/mod.rs",SA+"ast/attributes.rs",SA+"ast/recursive_attributes.rs",TR+"ast/src/ast/mod.rs"],
 [("manual Serialize/Deserialize impls",SA+"ast/mod.rs")],observe=["serde_json round trip"])
p("C11","What is built can be retrieved, unchanged, forever",
 "After a successful build the bundle, and every intermediate bundle of the build, can be fetched by identifier and is identical to what was built; its capture base and overlays can be fetched by identifier with their exact content. Later builds never change or remove an object already stored, and asking for an identifier that was never stored is an error, not a crash.",
 ["inputs","histories"],"all sequences of builds on one facade, including files that share content, and all identifiers ever returned, plus unknown ones",
 "Tests fetch one object right after one build.",
 [OC+"facade/build.rs",OC+"facade/fetch.rs",OC+"data_storage.rs"],
 [("build_step inserts keyed by SAID",OC+"facade/build.rs")],observe=["Facade::get_oca_bundle","Facade::get_oca_objects"])
p("C12","Build history is a faithful, replayable chain",
 "For every stored bundle the recorded steps form a finite chain from an initial step to that bundle, each step naming the previous bundle as parent and the bundle it produced; replaying the recorded instructions reproduces every intermediate and the final bundle with the same identifiers. Building the OCAFile reconstructed from the history gives the same bundle, and later builds never make a history unreadable or endless.",
 ["inputs","histories"],"all sequences of builds on one facade, including no-op instructions, add-then-remove, rebuilds, files sharing prefixes and FROM chains",
 "Tests reconstruct one linear history; broken chains need particular multi-step histories.",
 [OC+"facade/fetch.rs",OC+"facade/build.rs",SB+"build.rs"],
 [("operation record per bundle",OC+"facade/build.rs"),("get_oca_bundle_steps walk",OC+"facade/fetch.rs")],
 state=[("oca.<said>.operation","parent identifier and instruction that produced a bundle","oca namespace of the data storage")],
 observe=["Facade::get_oca_bundle_steps","get_oca_bundle_ast","get_oca_bundle_ocafile"])
p("C13","FROM continues a stored bundle exactly",
 "Building a file that starts with FROM <bundle> and goes on with further instructions gives the same bundle, with the same identifier, as one file holding the base's instructions followed by the further instructions; the base itself stays unchanged. A FROM naming an unknown bundle is rejected.",
 ["inputs","histories"],"all splits of accepted instruction sequences into base and continuation, including chains of several FROMs",
 "One test extends one bundle by one attribute.",
 [SB+"state/oca.rs",OC+"facade/build.rs",SB+"build.rs"],
 [("From<OCABundle> for OCABox",SB+"state/oca.rs"),("parse_and_check_base",OC+"facade/build.rs")],observe=["build_from_ocafile result"])
p("C14","Local references resolve to the latest named bundle",
 "A reference by name in an attribute type (at any array depth) or link is replaced by the identifier of the most recently built bundle with that name, so the result equals the same file written with that identifier; an unknown name is rejected. A rejected file never records or changes a name, listing all names gives exactly the current mapping, and validation with external references neither reads nor changes the facade's own names.",
 ["inputs","histories"],"all sequences of named and unnamed builds, renames of the same name, failing builds, and references by name in every position",
 "Tests use two names, each built once.",
 [OC+"local_references.rs",OC+"facade/build.rs",OC+"facade/fetch.rs"],
 [("replace_refn_with_refs",OC+"local_references.rs"),("References for DataStorage",OC+"facade/build.rs")],observe=["build_from_ocafile","fetch_all_refs"])
p("C15","Fetching with dependencies returns the whole closure",
 "Fetching a bundle with its dependencies returns exactly the bundles reachable from it through attribute references (including inside arrays of any depth), each with its exact content; if any of them is missing the fetch is an error. Encoded, the answer holds the same parts and a true version string. Fetching without dependencies returns none.",
 ["inputs","histories"],"all acyclic reference graphs over built bundles (diamonds, deep chains, arrays of references)",
 "No test covers more than a direct reference.",
 [OC+"facade/fetch.rs"],[("retrive_all_references",OC+"facade/fetch.rs")],observe=["Facade::get_oca_bundle(said, true)"])
p("C16","Relations between objects are complete and symmetric",
 "After any sequence of builds (or of loaded bundles whose relations are added), exploring a built bundle lists exactly its capture base and its overlays with their right kinds; exploring a capture base lists exactly the built bundles that use it and the overlays attached to it; exploring an overlay lists exactly its capture base and the built bundles containing it. Exploring an unknown identifier finds nothing, and no exploration crashes.",
 ["inputs","histories"],"all sequences of builds on one facade, including bundles that share capture bases or overlays, rebuilds and FROM chains",
 "No test explores relations at all.",
 [OC+"facade/explore.rs",OC+"facade/build.rs"],[("add_relations",OC+"facade/explore.rs"),("Relationship byte encoding",OC+"facade/explore.rs")],
 state=[("relations","kind+identifier list per object","oca_relations namespace")],observe=["Facade::explore"])
p("C17","Search finds exactly the matching bundles",
 "Searching for a word of at least three characters, or a double-quoted phrase, returns every built bundle whose name or description (in any language) contains it, ignoring case, and no other, each once; the reported total is the number of such bundles whatever the page, the pages of a search partition the result, and a preferred language changes only the order. No query text, page or limit crashes the search or makes the facade unusable, and rebuilding a file adds no duplicates.",
 ["inputs","histories"],"all sets of built bundles with names and descriptions in several languages (including punctuation and non-Latin text), all queries, limits and pages",
 "One test searches one word in one bundle.",
 [OC+"repositories/oca_bundle_fts_repo.rs",OC+"facade/fetch.rs",OC+"facade/build.rs"],[("FTS5 trigram table",OC+"repositories/oca_bundle_fts_repo.rs")],observe=["Facade::search_oca_bundle"])
p("C18","Listings page through everything exactly once",
 "Listing bundles, or capture bases, page by page returns every bundle built (every distinct capture base of a built bundle) exactly once with its exact content, with the right total on every page, for every page size; pages outside the range are empty and never crash.",
 ["inputs","histories"],"all sequences of builds with repeats, all page sizes and page numbers",
 "No test covers paging.",
 [OC+"repositories/oca_bundle_cache_repo.rs",OC+"repositories/capture_base_cache_repo.rs",OC+"facade/fetch.rs"],[("LIMIT/OFFSET queries",OC+"repositories/oca_bundle_cache_repo.rs")],observe=["fetch_all_oca_bundle","fetch_all_capture_base"])
p("C19","All storage back ends behave like one map",
 "Each storage back end (in memory, Sled, file system) behaves like a map per namespace: a value read back is the last one written under that key in that namespace, namespaces do not interfere, listing a namespace gives exactly its entries, and data of the persistent ones survives reopening. No key makes a back end touch files outside its own directory, and a facade gives the same results on every back end.",
 ["inputs","histories"],"all operation sequences over keys (including path-like and very long ones), values and namespaces; clones and reopened stores",
 "No test exercises a storage back end beyond one insert.",
 [OC+"data_storage.rs"],[("DataStorage impls",OC+"data_storage.rs")],observe=["DataStorage::get/get_all/insert","directory contents"])
p("C20","A rejected file leaves no trace",
 "When an OCAFile is rejected, or only validated against external references, nothing observable changes: stored objects, histories, names, relations, listings and search results are as before. Validating a file never makes a bundle retrievable, listed or searchable (validating an accepted file against the facade's own names may record its name).",
 ["inputs","histories"],"all sequences mixing accepted and rejected files, rejected at parse, reference, base, or build stage",
 "Tests check the error only, not the state left behind.",
 [OC+"facade/build.rs"],[("validate before build",OC+"facade/build.rs")],observe=["storage snapshot","facade queries"])
p("C21","Translation enforcement is exact",
 "When a set of languages is required, the bundle validator reports a translation problem exactly when, for some language-bearing overlay kind that is present (meta, entry, information, label), its languages are not exactly the required ones or two of its languages do not cover the same attributes (for meta: the same properties). Kinds that are absent, and bundles checked without required languages, raise no translation problem; the outcome does not depend on the order of overlays or attributes.",
 ["inputs"],"all bundles over a few attributes and languages, all sets of required languages",
 "Tests cover a few hand-made language sets.",
 [SB+"state/validator.rs"],[("validate_translations",SB+"state/validator.rs")],observe=["Validator::validate result"])
p("C22","Conditions keep their meaning",
 "A condition over attributes is stored with each mentioned attribute replaced by a placeholder that indexes the recorded list of dependencies in order of first mention, so substituting the names back gives the original text; evaluating it with given values gives what the condition says for those values, and a condition that is malformed or not boolean is reported as an error. Validating a bundle whose condition names an attribute that does not exist reports an error.",
 ["inputs"],"all conditions built from comparisons and boolean operators over up to a dozen attributes (repeated mentions included), all value assignments",
 "Tests evaluate three fixed conditions.",
 [SB+"state/oca/overlay/conditional.rs",SB+"state/attribute.rs",SB+"state/validator.rs"],[("set_condition placeholder rewriting",SB+"state/attribute.rs"),("Lua evaluation",SB+"state/oca/overlay/conditional.rs")],observe=["conditional overlay JSON","check_condition"])
p("C23","The core model records every step with its right parents",
 "For every step of a build the recorded core model names the step's instruction by digest, the produced capture base or overlay, and as parent the previous object of the same kind in the same build; the produced bundle's record names its parent bundle, its capture base and all its overlays. The first step of a build has no parents.",
 ["inputs","histories"],"all accepted instruction sequences, with and without a FROM base",
 "Tests never inspect the model.",
 ["semantics/oca-dag/src/lib.rs",OC+"facade/build.rs"],[("build_core_db_model",  "semantics/oca-dag/src/lib.rs")],observe=["build_core_db_model result","core_model namespace"])
p("C24","Transformation files are parsed and built faithfully",
 "Parsing a transformation file yields exactly its rename and link instructions and metadata, and building it yields exactly the pairs of all instructions (a later pair for the same source name replacing an earlier one), its source and target, and an identifier that is the digest of that content. A file is treated as a transformation exactly when its precompiler says so, and no text crashes parsing or building.",
 ["inputs"],"all transformation instruction sequences and layouts; arbitrary text",
 "Tests parse one line and build one rename.",
 [TR+"oca-file/src/ocafile.pest",TR+"oca-file/src/ocafile/mod.rs",TR+"transformation-file/src/build.rs",TR+"transformation-file/src/state/mod.rs","oca-file/src/ocafile/mod.rs"],[("from_ast",TR+"transformation-file/src/build.rs"),("precompiler dispatch","oca-file/src/ocafile/mod.rs")],observe=["parse_from_string","from_ast","encoded transformation"])
p("C25","Combined bundles are sealed by their identifier",
 "Encoding a combined bundle (a structural bundle, if there is one, with its transformations) contains each part exactly as encoded on its own and in order, carries a true version string and an identifier that is the digest of the whole, the same that filling in the identifier of the bundle gives; loading that JSON back gives the same parts.",
 ["inputs"],"all combinations of built bundles and lists of built transformations",
 "No test encodes more than one shape.",
 [OC+"facade/bundle.rs"],[("Bundle::encode",OC+"facade/bundle.rs")],observe=["Bundle::encode","load_oca"])
p("C26","Rebuilding is idempotent and order independent",
 "Building a file that was already built changes nothing observable: stored objects, listings with totals, search results, relations and histories stay the same (a bundle reached in several ways keeps its first history). The final content of the system after a set of independent files does not depend on the order they were built in, but for the history of a bundle several of them reach in different ways.",
 ["histories"],"all sequences of builds with repetitions, and permutations of independent builds",
 "Tests build each file once.",
 [OC+"facade/build.rs",OC+"facade/explore.rs",OC+"repositories/oca_bundle_fts_repo.rs"],[("content-addressed inserts",OC+"facade/build.rs")],observe=["storage snapshot","facade queries"])
p("C27","Errors point at the offending line",
 "When an OCAFile is rejected because one instruction cannot be applied while building, or because it does not follow the grammar, the error names the line of the file on which that instruction starts (for grammar errors, a line inside or right after the faulty instruction) and quotes its text, wherever comments, blank lines and continued lines occur before it. Each accepted instruction's recorded line and text are likewise its own.",
 ["inputs"],"all layouts of accepted files and files with one faulty instruction at any position",
 "Tests never look at line numbers.",
 [SF+"ocafile/mod.rs",SB+"build.rs",OC+"facade/build.rs"],[("commands_meta",SF+"ocafile/mod.rs")],observe=["ParseError / build Error fields","OCAAst.commands_meta"])
p("C28","An interrupted build can be repeated",
 "If a build is interrupted at any storage operation, by a failed read or write or a crash, bundles stored before it stay retrievable with readable histories and correct relations, and building the same file again afterwards completes normally and leaves the same stored content as an uninterrupted build. (A file that refers to the very name it assigns is left out: building it twice gives two bundles even without interruption.)",
 ["crash_points","fault_sequences"],"every storage read and write of a build as interruption point, for many build sequences, on in-memory and persistent back ends",
 "No test injects a failure.",
 [OC+"facade/build.rs",OC+"facade/explore.rs",OC+"data_storage.rs"],[("idempotent keyed inserts",OC+"facade/build.rs")],observe=["storage snapshot after retry","facade queries"])
p("C29","Concurrent use of shared storage loses nothing",
 "When several facades in different threads share one persistent store and build files at the same time, every build returns the same identifier as when run alone, and afterwards every bundle, object, name and history is retrievable with its exact content. Readers running at the same time only ever see absent or complete objects.",
 ["schedules","histories"],"schedules of 2 to 8 threads building overlapping and distinct files on one shared store, with injected delays at storage calls",
 "Tests are single threaded.",
 [OC+"data_storage.rs",OC+"facade/build.rs",OC+"facade/explore.rs"],[("Sled trees",OC+"data_storage.rs")],observe=["per-thread event log of builds and reads"])
p("C30","A bundle assembled through the library is the one its content describes",
 "A bundle assembled through the library's own interface (attributes added whole or in pieces, merged, in any order, values set again, metadata, classification and category labels added) is a function of the content that results: it equals, byte for byte, the bundle built from an OCAFile of the same content and any other assembly of it, contains every value added last and nothing else, and is unchanged by having been generated, copied or taken apart on the way. Taken apart and assembled again, a bundle of the current overlay version gives the same bundle.",
 ["inputs","histories"],"random content of up to a dozen attributes with every overlay kind the interface offers, assembled in random pieces and orders with intermediate generation",
 "Tests assemble a handful of fixed bundles in one order each; whether merging is independent of order and grouping is a statement over all assemblies. (Assumes attributes have a type and category labels stand next to a label.)",
 [SB+"state/oca.rs",SB+"state/attribute.rs",SB+"state/oca/overlay/"],[("merging attributes",SB+"state/attribute.rs"),("taking bundles apart",SB+"state/oca.rs")],
 observe=["bytes of every assembled bundle"])
p("C31","A build that reports success is complete",
 "When building a file reports success, everything the build stands for has been stored and can be found: the bundle and every object of it, the way it was built, its name, its relations, its place in listings and in search results, and the recorded model. If any of it cannot be stored, or something the build needs cannot be read, because a storage operation fails or the search data cannot be written, the build returns an error; it does not crash.",
 ["fault_sequences"],"every storage read and write of a build, and the writes of search data, failing once or for good, for many build sequences",
 "No test lets a storage operation fail.",
 [OC+"facade/build.rs",OC+"facade/explore.rs",OC+"repositories/"],[("Facade::build",OC+"facade/build.rs"),("add_relations",OC+"facade/explore.rs"),("inserts of search data",OC+"repositories/")],observe=["result of build_from_ocafile","storage snapshot","facade queries"])
p("C32","A question is answered completely or not at all",
 "When stored data cannot be read while a question is answered (a bundle with or without its dependencies, an object, a history, the OCAFile or instruction list of a bundle, relations, names, listings), the answer is an error (for relations: that nothing is found) or the complete right answer, never a partial or different one. The question does not crash, and afterwards the same facade answers and builds as before.",
 ["fault_sequences"],"every storage read of every question, failing once or for good, over many stored contents",
 "No test lets a read fail; which of the reads behind an answer fails is a choice per fault and content.",
 [OC+"facade/fetch.rs",OC+"facade/explore.rs",OC+"data_storage.rs",OC+"repositories/"],[("fetching with dependencies and histories",OC+"facade/fetch.rs"),("file system storage",OC+"data_storage.rs"),("listings",OC+"repositories/")],observe=["answers of facade queries under failing reads"])
with open("/verif/properties.jsonl","w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False)+"\n")
import jsonschema
sch=json.load(open("/root/.vp/PROPERTIES.schema.json"))
for x in P: jsonschema.validate(x,sch)
print(len(P))
