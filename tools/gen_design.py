#!/usr/bin/env python3
"""DESIGN.md = design_head.md + one section per property (from properties_src.py, registry.py, specs/*.cfg and spec headers) + design_tail.md + seeded table"""
import json, os, re, sys
T = os.path.dirname(os.path.abspath(__file__)); V = os.path.join(T, "..")
sys.path[:0] = [T, V]
from properties_src import PROPS
from registry import CHECKS, NOT_CLAIMED
def consts(cfg):
    s = open(os.path.join(V, "specs", cfg)).read()
    m = re.search(r"CONSTANTS?\s(.*?)\n\s*(?:INIT|NEXT|SPECIFICATION|INVARIANT|CONSTRAINT|PROPERT|SYMMETRY|VIEW|CHECK|\Z)", s, re.S)
    return " ".join(m.group(1).split()) if m else "no constants"
def invs(cfg):
    s = open(os.path.join(V, "specs", cfg)).read()
    out = []
    for k in ("INVARIANTS?", "PROPERT(?:Y|IES)"):
        for m in re.finditer(k + r"\s+((?:\w+\s*)+?)(?=\n\s*[A-Z_]+\b|\Z)", s): out += m.group(1).split()
    return [x for x in out if x not in ("Emit", "CHECK_DEADLOCK", "FALSE", "TRUE", "INVARIANT", "INVARIANTS", "PROPERTY", "PROPERTIES")]
def header(mod):
    s = open(os.path.join(V, "specs", mod + ".tla")).read()
    c = re.findall(r"^\(\*(.*?)\*\)\s*$", s, re.M)
    return " ".join(" ".join(c).split())
out = [open(os.path.join(T, "design_head.md")).read().rstrip(), "\n## The properties, one by one\n",
       "Each section: what TLC checks on the specification alone (`mc`, with the constants of the quick and thorough tier and the invariants), how the code is bound to it (`conf`), what is assumed, and why example tests cannot settle it.\n"]
for p in PROPS:
    c = CHECKS.get(p["id"])
    out.append(f"### {p['id']} - {p['title']}\n")
    if not c:
        out.append("Not claimed: " + NOT_CLAIMED.get(p["id"], "") + "\n"); continue
    out.append(f"*For* {p['quantifier']['text']}. *Tests cannot settle it:* {p['why_tests_cant']}\n")
    out.append("Approach: " + c["note"] + ".\n")
    seen = set()
    for j in c["jobs"]:
        if j["kind"] == "mc":
            cf = j["cfg"] if isinstance(j["cfg"], dict) else dict(quick=j["cfg"], thorough=j["cfg"])
            h = header(j["module"])
            if j["module"] not in seen and h: out.append(f"- `specs/{j['module']}.tla`: {h}")
            seen.add(j["module"])
            iv = ", ".join(dict.fromkeys(sum((invs(x) for x in cf.values()), [])))
            b = f"quick {{{consts(cf['quick'])}}}" + (f", thorough {{{consts(cf['thorough'])}}}" if cf["thorough"] != cf["quick"] else " (both tiers)")
            if j.get("thorough_only"): b = f"thorough only {{{consts(cf['thorough'])}}}"
            out.append(f"- mc {j['module']}: {b}; checked: {iv or 'the definition itself, evaluated on every case'}")
        else:
            g = j.get("gen")
            gs = "; inputs from TLC: " + ", ".join(x["cfg"] + (" (simulation)" if x.get("extra") else " (enumeration)") for x in (g if isinstance(g, list) else [g])) if g else ""
            fl = " ".join(f for f in j.get("cflags", []) if "sanitize" in f or "openmp" in f)
            h = header(j["trace"])
            out.append(f"- conf {j['name']}: `harness/{j['src']} {' '.join(j.get('args', []))}`{' (' + fl + ')' if fl else ''} -> oracle `specs/{j['trace']}.tla`" + (f" ({h})" if h and j["trace"] not in seen else "") + gs + f"; event kinds that must occur: {', '.join(j.get('need_ops', [])) or 'any'}")
            seen.add(j["trace"])
    if c.get("assumptions"): out.append("- assumed: " + "; ".join(c["assumptions"]))
    out.append("")
out.append(open(os.path.join(T, "design_tail.md")).read().rstrip())
out.append("\n## Planted bugs and what catches them\n")
out.append("Every entry was planted from the property text and the code alone, passes the existing tests, and has a demonstration. `caught by` is the registered check that exits 1 on it.\n")
out.append("| bug | property | needs | breaks | caught by |\n|---|---|---|---|---|")
notes = json.load(open(os.path.join(T, "seed_notes.json")))
for s in sorted(os.listdir(os.path.join(V, "seeded"))):
    m = json.load(open(os.path.join(V, "seeded", s, "meta.json")))
    out.append(f"| {s} | {m['property']} | {m['needs']} | {m['what_it_breaks']} | {notes.get(s, m['property'] + ' (quick), at once')} |")
open(os.path.join(V, "DESIGN.md"), "w").write("\n".join(out) + "\n")
print(len(out), "blocks")
