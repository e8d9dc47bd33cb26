from common import *

def check(c):
    facts = analyse([("c09.cc", ["PART=%d" % i], "_%d" % i) for i in range(6)], strict=False)
    n = nw = 0
    und = []
    for k in sorted(facts):
        f = facts[k]
        n += 1
        if not f["inlined_ok"] or not f["converged"]:
            und.append(k)
        what = next(p for p in f["params"] if p["name"] == "P0")["type"].split("<")[0]
        for w in f["writes"]:
            nw += 1
            if w["kind"] == "global" and (w["once"] or w["obj"].startswith(("_ZGV", "_ZT")) or "4Dune9Functions" not in w["obj"]):
                continue
            if w["kind"] == "global":
                c.violation("%s:%s" % (k, w["obj"]), "%s: using one of several views or local functions of a shared %s writes the static object %s (witness %s)" % (w["site"], what, w["obj"], k))
            elif re.search(r"\bP[01]\b", w["obj"]):
                c.violation("%s:%s" % (k, w["what"]), "%s: using one of several views or local functions of a shared object writes '%s' inside the shared %s (witness %s)" % (w["site"], w["what"], "object" if "P0" in w["obj"] else "element", k))
        if len(c.samples) < 6:
            c.samples.append({"witness": k, "class": what, "instructions": f["instructions"], "writes outside local objects": [w["what"] for w in f["writes"]][:4]})
    if n < 42:
        raise Broken("too few witnesses %d" % n)
    for k in und:
        print("UNDECIDED property=C09 %s: no fixpoint reached" % k)
    c.cov = {"explanation": "effect analysis: over all paths of making, copying, binding, evaluating and unbinding a view or local function of a shared basis or grid function, no store reaches the shared object, objects it refers to, or a static object (other than its guarded initialisation)",
             "witnesses": n, "writes_examined": nw, "undecided": und, "instructions_analysed": sum(f["instructions"] for f in facts.values())}
    c.assumptions = ["const member functions of grid and standard library types are free of unsynchronised writes", "reference counts of shared pointers are atomic"]

main("C09", check)
