"""Rewrites the two generated tables of DESIGN.md (between the markers).

usage: make_design_tables.py [LOG]   LOG: lines "bug property rc=N ..." of a run of the checks against seeded/"""
import glob
import importlib
import json
import os
import re
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
sys.dont_write_bytecode = True


def put(text, name, table):
    a, b = f"<!-- {name}:begin -->", f"<!-- {name}:end -->"
    return re.sub(re.escape(a) + ".*?" + re.escape(b), lambda m: a + "\n" + table + "\n" + b, text, flags=re.S)


def bounds():
    from vmon import env, harness
    scratch = env.setup()
    try:
        env.import_calkulate()
        out = ["| check | quick cases | thorough cases | scenarios (quick cases) |", "|---|---|---|---|"]
        for i in range(1, 22):
            p = f"C{i:02d}"
            m = importlib.import_module(f"vmon.props.c{i:02d}")
            f = harness.QUICK_FACTOR.get(p, harness.QUICK_FACTOR_DEFAULT)
            q = [(n, int(nq * f)) for n, _, nq, _ in m.SCENARIOS]
            out.append(f"| {p} | {sum(x for _, x in q)} | {sum(x[3] for x in m.SCENARIOS)} | "
                       + ", ".join(f"{n} {x}" for n, x in q) + " |")
    finally:
        env.cleanup(scratch)
    return "\n".join(out)


def seeded(log):
    res = {}
    for line in open(log):
        m = re.match(r"(\S+) (C\d\d) rc=(\d) \d+ ?(.*)", line)
        if m:
            res[m[1]] = (m[2], m[3], m[4].strip())
    out = ["| planted bug | property | what it breaks | quick check | first alarm |", "|---|---|---|---|---|"]
    for d in sorted(glob.glob(os.path.join(ROOT, "seeded", "*"))):
        b = os.path.basename(d)
        meta = json.load(open(os.path.join(d, "meta.json")))
        p, rc, first = res.get(b, (meta["property"], "?", ""))
        first = re.match(r"\[(\w+) case \d+\] ([^:]*)", first)
        out.append(f"| {b} | {p} | {meta['what_it_breaks']} | {dict([('1', 'caught'), ('0', 'missed')]).get(rc, '?')} | "
                   f"{first[1] + ': ' + first[2] if first else ''} |".replace("\n", " "))
    return "\n".join(out)


path = os.path.join(ROOT, "DESIGN.md")
text = open(path).read()
text = put(text, "bounds", bounds())
if len(sys.argv) > 1:
    text = put(text, "seeded", seeded(sys.argv[1]))
open(path, "w").write(text)
