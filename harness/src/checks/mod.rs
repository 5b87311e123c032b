use crate::run::Check;
pub mod asm;
pub mod core;
pub mod find;
pub mod hist;
pub mod json;
pub mod rules;
pub mod texts;
pub mod backends;
pub fn all() -> Vec<Check> {
    vec![
        Check { id: "C01", quick: 60000, thorough: 720000, min: 200, rule: "random instruction lists, each written in several layouts (keyword case, white space, continuations, comments, quoting, line ends, metadata places) and parsed by the real parser; the parsed list is compared with the written one. Non-trivial and distinct: a file text parsed to the right list", assumptions: &["the renderer writes OCAFile text the documented grammar allows"], run: core::c01, shared: 0 },
        Check { id: "C30", quick: 6000, thorough: 72000, min: 200, rule: "bundles assembled through the library attribute by attribute, in pieces, in random order, with replaced values, generated and taken apart on the way, against a model, against other assemblies of the same and against the bundle of the OCAFile that says the same. Distinct: bundles", assumptions: &["an attribute needs a type before a bundle is generated", "a category label stands next to a label of its language", "one attribute mapping"], run: asm::c30, shared: 0 },
        Check { id: "C03", quick: 12000, thorough: 144000, min: 200, rule: "random valid lists over few names (accept side) and the same lists with one rule broken at a chosen place (reject side), judged by a reference model. Distinct: file texts with the right verdict", assumptions: &["one instruction naming an attribute twice is left out"], run: core::c03, shared: 0 },
        Check { id: "C04", quick: 7500, thorough: 90000, min: 200, rule: "random instruction lists; the bundle after every instruction and the final one are compared member by member with a reference model. Distinct: model states compared", assumptions: &["entry code lists are sets: their order is not compared"], run: core::c04, shared: 0 },
        Check { id: "C05", quick: 1600, thorough: 30_000, min: 200, rule: "random lists built several times, in other layouts, in other orders the model proves equal, and with one small change the model proves different; leading cases are built in every worker process and compared. Distinct: final model states", assumptions: &[], run: core::c05, shared: 40 },
        Check { id: "C06", quick: 9000, thorough: 108000, min: 200, rule: "every bundle, intermediate bundle and stored object of random builds has its identifiers recomputed from its bytes by independent code. Distinct: identifiers recomputed", assumptions: &["blake3 and base64 crates compute what they say"], run: core::c06, shared: 0 },
        Check { id: "C11", quick: 5000, thorough: 60000, min: 200, rule: "sequences of builds (new files, extensions, FROM, repeats, reorderings, small changes); every bundle, intermediate bundle, capture base and overlay seen so far is fetched again and compared; overwritten values in the store are reported by a storage double. Distinct: identifiers fetched", assumptions: &["expected steps come from building the whole file without a facade (decided by C04 and C06)"], run: hist::c11, shared: 0 },
        Check { id: "C12", quick: 500, thorough: 9_000, min: 200, rule: "the history of every bundle after sequences of builds is read, its chain checked, replayed by the real builder and by the model, and its reconstructed OCAFile built in a fresh facade. Distinct: chains", assumptions: &["a bundle reached in several ways keeps one of those histories"], run: hist::c12, shared: 0 },
        Check { id: "C13", quick: 3000, thorough: 36000, min: 200, rule: "files continuing final and intermediate bundles, in chains, against the whole file built in a fresh facade and against the model; wrong continuations must be rejected. Distinct: bundles built by continuation", assumptions: &[], run: hist::c13, shared: 0 },
        Check { id: "C14", quick: 5000, thorough: 60000, min: 200, rule: "named files and references by name at every depth against the same file with identifiers, and the listed names against the record of builds, with rejected files in between; validation with external references is watched for reads and writes of the facade's names. Distinct: files that used names", assumptions: &[], run: hist::c14, shared: 0 },
        Check { id: "C15", quick: 10000, thorough: 120000, min: 200, rule: "random reference graphs (arrays of arrays, diamonds, missing ones, intermediate bundles as targets); the closure is computed from the recorded graph. Distinct: closures compared", assumptions: &[], run: hist::c15, shared: 0 },
            Check { id: "C16", quick: 6000, thorough: 72000, min: 200, rule: "after every build of a sequence all bundles, capture bases and overlays built so far are explored and compared with relations computed from the built bundles. Distinct: relation sets seen", assumptions: &["only bundles that files were built to count as built, not the ones on the way"], run: find::c16, shared: 0 },
        Check { id: "C17", quick: 1500, thorough: 18000, min: 200, rule: "random names and descriptions in several languages; words and quoted phrases searched page by page, compared with a scan of what was built; hostile queries, limits and pages in between. Distinct: queries with their (non-empty) result", assumptions: &["letters whose upper and lower case differ in length are left out"], run: find::c17, shared: 0 },
        Check { id: "C18", quick: 2500, thorough: 30000, min: 200, rule: "all pages of both listings for several page sizes, in random order, after sequences of builds with repeats and rejected files. Distinct: (page size, content) pairs", assumptions: &[], run: find::c18, shared: 0 },
        Check { id: "C20", quick: 4000, thorough: 48000, min: 200, rule: "snapshots of the stores and of every answer of the facade around rejected and merely validated files. Distinct: rejected or validated files", assumptions: &["validate_ocafile records the name of an accepted file: it is the first half of a build"], run: find::c20, shared: 0 },
        Check { id: "C26", quick: 2200, thorough: 26400, min: 200, rule: "everything observable before and after files are built again, and after the same independent files are built in other orders. Distinct: (files, order)", assumptions: &["a bundle reached in several ways keeps the history of the first one; such histories are not compared between orders"], run: find::c26, shared: 0 },
        Check { id: "C07", quick: 260, thorough: 5_000, min: 200, rule: "every genuine bundle validates; every single change of a value, name, language, target, type, identifier, item or overlay of its JSON must be refused or reported; overlays of other capture bases; inner changes with the outer identifier made again. Distinct: tampered bundles", assumptions: &["what only changes the version string or the name a kind of overlay is listed under is not a change of the bundle's content"], run: json::c07, shared: 0 },
        Check { id: "C08", quick: 6000, thorough: 60_000, min: 200, rule: "encode, load, encode; take apart and assemble; a catalogue of malformed bundles that must be refused; random damage that must not crash the loader or anything done with what it accepts. Distinct: bundles and damaged texts", assumptions: &[], run: json::c08, shared: 0 },
        Check { id: "C10", quick: 20000, thorough: 240000, min: 200, rule: "instruction lists of both languages and each instruction to JSON and back; damaged JSON must not crash. Distinct: JSON texts", assumptions: &[], run: json::c10, shared: 0 },
        Check { id: "C21", quick: 6000, thorough: 72000, min: 200, rule: "bundles with language-bearing overlays that are complete or have holes, judged for several sets of required languages by a rule over what the instructions cover; overlays and attributes reordered. Distinct: (coverage, required languages)", assumptions: &["problems of other kinds are told apart by validating without required languages"], run: rules::c21, shared: 0 },
        Check { id: "C22", quick: 1500, thorough: 40_000, min: 200, rule: "random expressions written with different parentheses and spacing, evaluated for random values by an independent evaluator; malformed, not boolean and failing conditions; the same inside bundles. Distinct: (condition, values)", assumptions: &["numbers are doubles"], run: rules::c22, shared: 0 },
        Check { id: "C23", quick: 3000, thorough: 30_000, min: 200, rule: "the records of random builds, and what the facade stores of them over several builds, against records computed from the instructions and the encoded step results. Distinct: records", assumptions: &["a record of an object made in several builds is the latest one"], run: rules::c23, shared: 0 },
        Check { id: "C24", quick: 4000, thorough: 60_000, min: 200, rule: "random transformation files in many layouts, parsed and built, against what was written; which files count as transformations; damaged and huge texts. Distinct: transformations built", assumptions: &[], run: rules::c24, shared: 0 },
        Check { id: "C25", quick: 12000, thorough: 144000, min: 200, rule: "random bundles with random transformations, encoded and loaded; parts compared with their own encodings, identifier and version recomputed; damaged JSON. Distinct: combined bundles", assumptions: &[], run: rules::c25, shared: 0 },
        Check { id: "C02", quick: 5000, thorough: 60000, min: 200, rule: "damaged files, words in any order, identifiers that are none, deep and long texts, random characters; parsed, validated, built and turned back, and the same facade builds good files afterwards. Distinct: texts", assumptions: &["a case that runs for more than 45 s counts as hanging"], run: texts::c02, shared: 0 },
        Check { id: "C09", quick: 5000, thorough: 60000, min: 200, rule: "random lists, and lists damaged files give, written out by the library and read again; bundles and the ones on the way turned into OCAFiles and built again. Distinct: files", assumptions: &["a bundle without any content has no OCAFile", "a property named lang is left out"], run: texts::c09, shared: 0 },
        Check { id: "C27", quick: 8000, thorough: 96000, min: 200, rule: "files in random layouts whose instructions' lines are known, with one or several faults put in at known lines; the errors' lines and quoted texts are compared. Distinct: (line, instruction)", assumptions: &[], run: texts::c27, shared: 0 },
        Check { id: "C19", quick: 1000, thorough: 12_000, min: 200, rule: "random operations with hostile keys on every back end against a map, with several handles and reopening, everything around the storage's directory compared before and after; random builds with hostile names on every back end against one another, reopened. Distinct: (back end, key) and sets of bundles", assumptions: &["a key that gives a file name of more than 255 bytes may be refused", "one process at a time has a Sled store open"], run: backends::c19, shared: 0 },
        Check { id: "C28", quick: 400, thorough: 4000, min: 100, rule: "every read and write of a build on top of earlier ones fails in turn (a sample of 30 per build in the quick tier), once or for good; processes end at a write, are killed at a random moment, or may not let files grow; then what was there before is compared, the build repeated, and everything compared with an uninterrupted build. Distinct: (file, interruption)", assumptions: &["the operating system keeps what a process wrote before it died: power loss is not simulated", "relations are compared as sets"], run: backends::c28, shared: 0 },
        Check { id: "C31", quick: 240, thorough: 3000, min: 60, rule: "every read and write of a build on top of earlier ones fails in turn (a sample of 30 per build in the quick tier), once or for good; the search data is held by another connection, or no file may grow beyond a limit; whenever the build reports success, everything observable and stored equals what an undisturbed build leaves. Distinct: (file, fault)", assumptions: &["a panic is a way of not reporting success", "relations are compared as sets"], run: backends::c31, shared: 0 },
        Check { id: "C32", quick: 160, thorough: 2400, min: 40, rule: "for every question about the outcome of a few builds, every storage read it makes fails in turn (a sample of 6 per question in the quick tier), once or for good; or a stored file cannot be read, or the search data is held by another connection; an answer given all the same equals the undisturbed one, and so does the answer to the question asked again. Distinct: (question, fault)", assumptions: &["searching is left out: its interface cannot report an error", "for relations, nothing found stands for an error"], run: backends::c32, shared: 0 },
        Check { id: "C29", quick: 500, thorough: 6000, min: 100, rule: "2 to 6 threads with a facade each build overlapping files on one store (instrumented map, Sled, file system) with random delays at every storage operation, while 1 to 3 readers look at everything; afterwards all is read again. Distinct: orders of storage operations", assumptions: &["relations between objects are left out", "threads use names of their own"], run: backends::c29, shared: 0 },
    ]
}
