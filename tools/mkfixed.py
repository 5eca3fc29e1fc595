import subprocess, json, re, os
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
M={
"fa20b2a":"S17","a7deee2":"S17","80eed4b":"S01 S02","13978c9":"S21","b8d1a69":"S08","4b0dcf2":"S21","f0b04b4":"S21","5b528f8":"S21","0b70c3e":"S21","a4fc9f4":"S11",
"2578a02":"S20","727b0ed":"S20","0be0459":"S21","334f2ed":"S21","538d43e":"S21","7dd210f":"S21","6d0dff9":"S21","06851ec":"S21","7901f6f":"S21","1b5ac38":"S21","8e48bf3":"S21","c915c11":"S21",
"ae2d7b2":"S21","08f75a6":"S21","8aa43bf":"S21","6c95166":"S21","4eab19e":"S21","0f1a81b":"S21","27fed67":"S21","69b0c04":"S01","0f4e0e7":"S01","43c8e73":"S01","58d078a":"S01","4eedb86":"S01","550c007":"S01",
"0a3efb8":"S01","f70d478":"S01","216d7af":"S01","0f8fd49":"S02","d2480e2":"S01","967a0ba":"S05","9b4a159":"S21","07872fa":"S21","29a676e":"S10 S21","b30f90d":"S10","748c40c":"S21","74d72e5":"S14 S21","642f6b9":"S12",
"4ea9e06":"S12","f2fc081":"S12","f540ca1":"S12","66c0bba":"S15 S16","d0b71f4":"S16","ae77303":"S16","d22282f":"S15","e8e46fb":"S15","8f54831":"S15","ff2c88b":"S06","d66702f":"S17","4635449":"S22","cb69562":"S05",
"bd9a9e4":"S10","f0ef179":"S17 S10","8c1544e":"S09","40233a":"S09","0e40233":"S09","406df19":"S09","5d484a0":"S09","a83b7b0":"S09","800b735":"S07 S09","7720dc4":"S08","e1cdceb":"S02","02c17f6":"S02","191f8f2":"S01 S02","bc45c86":"S02","f155447":"S02",
"a7754f7":"S02 S17","dbdaa9a":"S02","4a99ce1":"S02","61ee045":"S02","623dd06":"S02","db740e1":"S05 S22"}
SUBJ=[("QleSCA crashed","S21"),("crashed with","S21"),("crashed when","S21"),("SAP_DE shrank","S21"),("divided by zero with the accepted","S21"),("FLA moved agents that do not","S21"),("maximization problems","S11"),("DMOA preferred","S11"),("ChameleonSA lost the personal best","S11"),("HGSO replaced the best","S11"),("improved_ms","S20"),("exploration and exploitation","S27"),("get_optimizer_by_name","S26"),("QSA failed","S21"),("EHO failed","S21"),("EVO failed","S21"),("GA variants","S21"),("CleverBook","S21"),("NMRA","S21"),("AAA failed","S21"),("DOA failed","S21"),("LSHADEcnEpSin","S21"),("CRO failed","S21"),("HCO never","S21"),("ICA failed","S21"),("log_to and log_file","S28"),("charts were drawn","S28"),("save_trajectory_chart","S28"),("AO variants failed","S21"),("OriginalDandelionO","S21")]
out=[]
for l in subprocess.check_output(["git","-C","/repo","log","--reverse","--format=%h %s","c8f8a53.."],text=True).splitlines():
    h,s=l.split(" ",1)
    if not s.startswith("fix:"): continue
    for p in M.get(h,"S24" if "follow set_parameters()" in s or "SSpiderO: " in s or "reported the square" in s or "truncated the" in s else "S15" if "export_figures" in s else next((p for k,p in SUBJ if k in s), "?")).split():
        out.append(f"fixed: property={p} {h} {s[5:]}")
for f in json.load(open(os.path.join(V,"tools/findings.json"))):
    out.append(json.dumps(dict(f, status="finding")))
open(os.path.join(V,"known_findings.jsonl"),"w").write("\n".join(out)+"\n")
print([o for o in out if "=?" in o], len(out))
