"""Writes /verif/MANIFEST.json from properties.jsonl."""
import json, os
D = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
ids = [json.loads(l)["id"] for l in open(os.path.join(D, "properties.jsonl"))]
SYM = "symbolic execution of the real Python code on proxy integers and arrays, z3 (bit-vectors) deciding every branch and assertion; every path re-run on the unmodified code"
LVL = dict(
  C01="Induction inside bounds: seed legal, one step from every canonical partial matrix legal (symbolic rows), search loop yields only finished step results (symbolic tree); and whole searches from every partial matrix to the end for v <= 10, from the seed for v <= 27 at listed parameters.",
  C02="No canonical matrix missing: one symbolic v x v matrix against everything a real search yields (v <= 13 all parameters, listed ones to v = 27); completeness of one step from every canonical partial matrix; search loop over every tree of bounded size.",
  C03="Every whole search is run twice in the explored bounds, all interleavings of two generators for a bounded number of results; one step run twice from every canonical partial matrix. A search still running after a minute or more counts as not ending.",
  C04="Every canonical partial matrix for v <= 11 (thorough 13, 15, 16) and next rows of known graphs up to v = 100: all returned rows legal, any legal row (symbolic) returned once.",
  C05="Every partial matrix for v <= 10 (13) and rows of known graphs up to v = 100 (300), against any symbolic 0/1 vector.",
  C06="Every small 0/1 system within the stated sizes, and systems from known graphs with symbolic right-hand sides, against any symbolic 0/1 vector.",
  C07="Every small question within the stated sizes, some unknowns already fixed, and questions from known graphs; solution sets compared before and after with a symbolic assignment.",
  C08="Every small 0/1 matrix within the stated sizes (and rows and columns beyond 64 for fixed patterns) against any symbolic non-negative vector.",
  C09="Every 0/1 matrix within the stated sizes.", C10="Every 0/1 matrix, right-hand side and bounds within the stated sizes.",
  C11="Every quota, bound and position within the stated ranges.", C12="Every symmetric 0/1 matrix up to 5 vertices (thorough 6) and symbolic parts of larger graphs.",
  C13="Every list within the stated lengths and sizes.", C14="Every 0/1 matrix in bounds, every strongly regular graph with v <= 13 at listed parameters, all parameter integers in range.",
  C15="All parameter integers in range, with exact rational arithmetic standing in for floats that hold exact values.",
  C16="All parameters in range and symbolic rows below the seed.", C17="Every bucket division and every count within the stated lengths.",
  C18="Every pair of questions within the stated sizes and symbolic later changes.",
  C19="The stored data itself is read from /repo on every run; soundness: any stored matrix; completeness: any canonical matrix of these parameters (symbolic v x v), v <= 28.",
  C20="The main modules are executed with symbolic argument words and a stand-in solver or catalogue that returns symbolic matrices; real runs with the text read back at listed parameters.",
  C21="Every shape and content within the stated sizes.",
  C22="Every content within the stated sizes, the traced step being an arbitrary change of the right-hand sides or a real step.")
checks = []
for i in ids:
    checks.append(dict(property=i, quick_cmd=f"python3-vt -m se.run {i} --tier quick", thorough_cmd=f"python3-vt -m se.run {i} --tier thorough",
        evidence_file=f"evidence/{i}.json", technique=SYM if i not in ("C19",) else "SMT queries (z3, bit-vectors) over a symbolic v x v matrix against the catalogue the real code returns",
        level="model_checking", level_note=LVL[i] + " Nothing is claimed outside the bounds; trusted: z3, the NumPy stand-in (se/snp.py, checked on every path against real NumPy) and the specification (se/spec.py)."))
m = dict(version=1, setup_cmd="python3-vt -c 'import z3, numpy'", checks=checks, not_applicable=[],
         notes="No hooks: the source in /repo is loaded and executed as it is. fix: commits are listed in known_findings.txt.")
json.dump(m, open(os.path.join(D, "MANIFEST.json"), "w"), indent=1)
