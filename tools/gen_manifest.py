#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of checks (ocav list) and the notes below, and the list of repairs of known_findings.json from /repo's history."""
import json, subprocess, os
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids=[l.split()[0] for l in subprocess.check_output([V+'/target/debug/ocav','list'],text=True).splitlines() if l.strip()]
T={
'C01':('differential monitor over random files: parsed AST against the instructions the text was rendered from','Random instruction lists in many layouts; each parse is compared item by item. Trusts the renderer to write documented syntax.'),
'C02':('crash and hang monitor (panics, aborts, stack overflow, time limit, overflow checks and debug assertions on) over mutated, hostile and deeply nested texts in watched worker processes','Every text is parsed, validated and built in a child process with a watchdog; afterwards the facade must still build a reference file. No claim about resource use below the limits.'),
'C03':('runtime verdicts of the real validator against a reference model of the rules','Valid lists must be accepted, lists with one rule broken must be rejected; the model says which.'),
'C04':('online comparison of every intermediate bundle with a reference model','Each step of a build and the final bundle compared member by member with an independent model.'),
'C05':('metamorphic monitor: repeated, relaid, reordered and cross-process builds must give the same bytes','Byte equality in and across processes with different hash seeds; content changes must change identifiers.'),
'C06':('independent digest oracle over every bundle and stored object observed','Digests recomputed with the blake3 crate from serialized bytes by code that shares nothing with the said crate.'),
'C07':('mutation oracle: genuine bundles must validate, every single-field tampering must be reported','All leaf mutations of each generated bundle are tried; identifiers kept as they were.'),
'C08':('round trip monitor plus hostile JSON under a crash monitor','encode-load-encode byte equality, take apart and reassemble identifier equality, mutated JSON must give errors.'),
'C09':('round trip monitor over generated OCAFile text','AST to text to AST equality and bundle to text to bundle identifier equality on random lists.'),
'C10':('round trip monitor over AST JSON plus hostile JSON under a crash monitor','JSON fixpoint and equality for semantic and transformation ASTs.'),
'C11':('history monitor: every object ever built is fetched again after later builds','Sequences of builds; a recorder of all objects seen; storage double reports every overwritten value.'),
'C12':('history replay monitor','Recorded chains are walked, replayed through the real builder and compared; sequences of builds include returns to earlier bundles.'),
'C13':('metamorphic monitor: FROM plus rest against the concatenated file','Identifier and byte equality; the unknown base is a recorded finding.'),
'C14':('metamorphic monitor with a model of the name table','Name table model, substitution equality, and mapping equality after each operation.'),
'C15':('reachability oracle over recorded reference graphs','Random reference graphs with arrays of arrays; closure computed independently.'),
'C16':('relation monitor: a model of all relations compared with exploration after every build','Exploration of every object after sequences of builds.'),
'C17':('search oracle: substring semantics over recorded names and descriptions, plus hostile queries','Scan of all built bundles is the oracle; paging partition and totals; random FTS syntax must not crash.'),
'C18':('paging oracle over recorded builds','Union and multiplicity over all pages for many page sizes, including out of range ones.'),
'C19':('model-based monitor of the storage back ends, with a watched directory','Random operation sequences against a map model, reopening, hostile keys under an unprivileged chrooted-like scratch directory watch, and same facade results on all back ends.'),
'C20':('before/after snapshot monitor around rejected files','Full observable snapshot (stores, listings, search, names) around each rejection.'),
'C21':('oracle for translation enforcement','Exact expected outcome from an independent rule over random bundles and language sets, in permuted order.'),
'C22':('condition oracle: an independent evaluator and placeholder checker','Random expressions with known values; malformed and hostile conditions under crash and hang monitors.'),
'C23':('core model trace checker','Offline checker over recorded core model entries against the recorded steps.'),
'C24':('differential monitor for transformation files plus hostile texts','Random lists rendered and compared after parsing and building, digest recomputed independently.'),
'C25':('seal oracle for combined bundles','Digest, version string and part equality recomputed independently.'),
'C26':('metamorphic monitor over build schedules','Rebuilding and permuting sequences; full snapshots compared.'),
'C27':('error position oracle','One fault planted at a known line in random layouts; reported line and text compared.'),
'C28':('fault injection at every storage operation and crash monitor','Every read and write index of a build fails or kills the process; then rebuilt and compared with an uninterrupted run.'),
'C29':('concurrent stress with recorded histories and an offline checker','Threads share a persistent store; every reader observation is checked complete, final state compared with a sequential run.'),
'C30':('metamorphic and model-based monitor of assemblies','The same content assembled in many ways, from a file, by copy, by taking apart; bytes compared, members compared with a model.'),
'C31':('fault injection at every storage operation with a completeness oracle','Every read and write of a build fails, the search data is locked or the disk full; a success is compared with an undisturbed build.'),
'C32':('fault injection at every storage read of every query with a completeness oracle','Every read behind an answer fails in turn; an answer given all the same is compared with the undisturbed one.'),
}
checks=[{'property':i,'quick_cmd':f'./run.sh check {i}','thorough_cmd':f'./run.sh check {i}','technique':T[i][0],'level':'fault_enumeration' if i in ('C28','C31','C32') else 'exploration','level_note':T[i][1]} for i in ids]
json.dump({'version':1,'setup_cmd':'bash setup.sh','checks':checks,'not_applicable':[{'property':p,'reason':'check not built yet'} for p in [json.loads(l)['id'] for l in open(V+'/properties.jsonl')] if p not in ids],
 'notes':'No hooks: everything is observed through the public API, storage doubles and child processes.'},open(V+'/MANIFEST.json','w'),indent=1)
P={'also several of one kind':'C07','combined bundle without a structural part':'C25','combined bundle is encoded with':'C25','whose storage fails is an error':'C31','listing that cannot be read':'C32','cannot be read is not taken for absent':'C19','cannot be stored or read is an error, not a panic':'C02','could not store relations or search data':'C31','stored but cannot be read is not left out':'C31','character encoding properties have no empty':'C09','merging an attribute adds its links and framings':'C30','taking a bundle apart keeps its category labels':'C30','a standard overlay lists its attributes in a fixed order':'C08','link target or known reference':'C08','Sled keeps what was written':'C28','overlay removals keep':'C09','keeps its sign in any place':'C22','finds the frame an instruction names':'C23','long condition does not overflow':'C22','groups of entry codes':'C08','continuation are not tokens':'C01','many escapes':'C02','unquoted unit':'C01','nesting of types':'C02','FLAGGED_ATTRIBUTES marks':'C04','keeps flagged attributes':'C09','generated from an AST':'C09','later unit or entry code':'C04','cannot be applied are errors':'C02','instructions after FROM':'C13','metadata of a frame':'C05','only lines of their own':'C01','recorded line numbers':'C27','transformation without source':'C24','read back from JSON':'C10','malformed bundle is refused':'C08','condition that cannot be evaluated':'C22','does not run in circles':'C12','can be fetched and explored':'C11','no search text':'C17','keeps to its directory':'C19','half written value':'C29','arrays of arrays are followed':'C15','once among dependencies':'C15','tells apart links':'C23','field of its overlay':'C04','end of a file':'C01','beginning with -- is':'C01','interpreter panics on':'C22','too short for an identifier':'C02','identifier that is too short':'C08','white space before its arrow':'C24'}
kf=V+'/known_findings.json'
d=json.load(open(kf)) if os.path.exists(kf) else {'known':[]}
fixed=[]
extra=json.load(open(V+'/tools/fix_property.json')) if os.path.exists(V+'/tools/fix_property.json') else {}
P.update(extra)
for l in reversed(subprocess.check_output(['git','-C','/repo','log','--format=%h %s'],text=True).splitlines()):
    h,s=l.split(' ',1)
    if not s.startswith('fix:'): continue
    p=[v for k,v in P.items() if k in s]
    assert p,s
    fixed.append(f'fixed: property={p[0]} {h} {s[5:]}')
d['fixed']=fixed
json.dump(d,open(kf,'w'),indent=1)
