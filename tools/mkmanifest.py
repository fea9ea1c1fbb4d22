#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the list of built checks."""
import json,os,subprocess
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILT={
"C01":("random well-typed format descriptions x inputs against an independent reference semantics","bounded by generator depth/size (formats of up to ~60 nodes, inputs up to ~48 bytes)"),
"C02":("differential: located interpreter vs plain interpreter, span invariants, over random formats and inputs","same generator as C01"),
"C03":("differential: generated Rust, compiled and run, vs interpreter, over random formats and inputs","formats inside the documented codegen subset"),
"C04":("random regular descriptions against exhaustive enumeration of all derivations","expressions up to ~20 nodes, inputs up to ~10 bytes"),
"C05":("invariant over random formats and inputs: consumed/examined bytes within computed bounds","same generator as C01"),
"C06":("invariant over random formats: decoded value inhabits inferred type; mutated ill-typed formats rejected","same generator as C01"),
"C07":("random well-typed expressions against an exact big-integer evaluator","expressions up to ~40 nodes"),
"C08":("model-based: random operation trees on the run-time parser vs a recursive functional model","operation trees up to ~60 operations, buffers up to 24 bytes"),
"C09":("round-trip: independent random DEFLATE/zlib/gzip encoder vs interpreter and generated decoder","payloads up to ~40 kB"),
"C10":("differential: generated decoders vs interpreted descriptions over generated and mutated files","files up to ~64 kB"),
"C11":("differential against the standard library's UTF-8 validation, plus exhaustive short strings","byte strings up to ~64 bytes"),
"C12":("round-trip: independent random encoders per container format vs decoded records, with constraint violations","documents up to a few kB"),
"C13":("random set expressions against a 256-entry membership table","set expressions up to ~20 operators"),
"C14":("random intervals and members against concrete arithmetic","members sampled at edges and at random"),
"C15":("random numeric expressions against exact big-integer evaluation","expressions up to ~30 nodes"),
"C16":("random values: JSON round-trip, leaf completeness of listings, determinism across decoders","same generator as C01"),
"C17":("fuzzing: random, structured and mutated byte strings into every shipped generated decoder","inputs up to ~64 kB"),
"C18":("metamorphic: repeated generation in one and several processes, and regeneration of the shipped module","random formats plus the shipped set"),
"C19":("round-trip: canonical Huffman encoder vs both run-time decoders over random length vectors","codes up to 15 bits"),
"C20":("random arguments to every run-time helper against naive definitions","sequences up to ~40 elements"),
"C21":("model-based: random read/seek/array operations on the binary reading library vs direct indexing","buffers up to 64 bytes"),
}
built=open(V+'/tools/built.txt').read().split()
ids=[json.loads(l)['id'] for l in open(V+'/properties.jsonl')]
hook=subprocess.run(['git','-C','/repo','log','--format=%H %s'],capture_output=True,text=True).stdout.splitlines()
hooks=[l.split()[0] for l in hook if l.split(' ',1)[1].startswith('hook:')]
m={"version":1,"setup_cmd":"bash setup.sh",
 "hooks":{"guard":"--cfg verif_hooks","enable":"run.sh builds with RUSTFLAGS='--cfg verif_hooks'; with the flag absent the added code is not compiled","source_commits":hooks},
 "checks":[{"property":i,"quick_cmd":f"bash run.sh {i} quick","thorough_cmd":f"bash run.sh {i} thorough",
   "technique":"property-based testing: "+BUILT[i][0],"level":"exploration","level_note":BUILT[i][1]} for i in ids if i in built],
 "not_applicable":[{"property":i,"reason":"check not built yet"} for i in ids if i not in built],
 "notes":"Every check is a fixed number of generated cases that depend only on VERIF_SEED and the case index; see DESIGN.md."}
json.dump(m,open(V+'/MANIFEST.json','w'),indent=1); open(V+'/MANIFEST.json','a').write('\n')
