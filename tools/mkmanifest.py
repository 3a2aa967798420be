import json,os
H=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
c=json.load(open(H+'/checks.json'))
checks=[]
for k in sorted(c):
    if k[0]!='C': continue
    checks.append({"property":k,"quick_cmd":f"python3 check.py {k} quick","thorough_cmd":f"python3 check.py {k} thorough",
     "technique":"symbolic execution of the compiled code (LLVM IR) with z3, counterexamples replayed natively",
     "level":"model_checking",
     "level_note":"Bounded: holds for every input of the stated shapes ("+c[k]["bounds"][0]+"). Every path condition is decided by z3; nothing is claimed outside the bounds. Trusts the engine's LLVM semantics (validated on each run by native replay of sampled paths), rustc, z3, a naive memchr model and an ideal-hash model of twox-hash."})
na=[{"property":"C21","reason":"shortest-decimal formatting (ryu) and correctly rounded parsing (lexical-core) of floating point need 128-bit symbolic multiplications over 2^64 values and large tables; neither bit-blasting nor path enumeration reaches them within the time available, and any cut small enough would not be the property"}]
ids=[json.loads(l)["id"] for l in open(H+'/properties.jsonl')]
done={x["property"] for x in checks}|{"C21"}
for i in ids:
    if i not in done: na.append({"property":i,"reason":"check under construction"})
json.dump({"version":1,"setup_cmd":"cd engine && RUSTUP_TOOLCHAIN=stable cargo build --release --offline","checks":checks,"not_applicable":na,
 "notes":"No hooks in /repo: harnesses use the public API only. Repairs of genuine defects are the 'fix:' commits, listed in KNOWN_FINDINGS.txt."},open(H+'/MANIFEST.json','w'),indent=1)
