from common import *

def dep_leaves(f):
    """members of the object whose constructed value depends on a grid source (P1 grid view, P3 sub domain)"""
    out = {}
    for l in f["params"][0]["leaves"]:
        src = set(t.split(".")[0] for t in l["t"])
        if "P1" in src or "P3" in src:
            out[(l["off"], l["path"])] = l
    return out

def check(c):
    facts = analyse([("c01.cc", ["PART=%d" % i], "_%d" % i) for i in range(6)])
    names = sorted(k[len("w_ctor_"):] for k in facts if k.startswith("w_ctor_"))
    nleaf = ndep = 0
    for n in names:
        cf, uf = facts["w_ctor_" + n], facts["w_upd_" + n]
        dep = dep_leaves(cf)
        if not dep:
            raise Broken("no grid dependent state found in " + n)
        if not uf["returns"]:
            c.violation("update:" + n, "update() of %s never returns normally" % uf["params"][0]["type"])
            continue
        depnames = set("P0.%s@%d" % (p, o) for (o, p) in dep)
        cls = uf["params"][0]["type"].split("<")[0]
        for l in uf["params"][0]["leaves"]:
            nleaf += 1
            if (l["off"], l["path"]) not in dep:
                continue
            ndep += 1
            stale = sorted(t for t in l["t"] if t in depnames)
            if stale:
                c.violation("%s:%s" % (n, l["path"]),
                            "%s: after update(gridView)+initializeIndices() member '%s' (%s) may still depend on the previous grid view through %s (witness w_upd_%s)"
                            % (cls, l["path"], l["type"][:60], ", ".join(stale), n))
        if len(c.samples) < 8:
            c.samples.append({"basis": cls, "grid_dependent": sorted(p for (_, p) in dep)[:8], "instructions": uf["instructions"]})
    if len(names) < 38 or ndep < 150:
        raise Broken("too few instances: %d bases, %d grid dependent members" % (len(names), ndep))
    c.cov = {"explanation": "value-flow analysis (taint + points-to to a fixpoint over the inlined IR of update()+initializeIndices()) for every basis; a member that depends on the grid view after construction must not carry any value of the previous grid view afterwards",
             "bases": len(names), "members": nleaf, "grid_dependent_members": ndep, "instructions_analysed": sum(f["instructions"] for f in facts.values())}
    c.assumptions = ["library calls (mappers, grid views, containers) are opaque: their results derive from their arguments, update/assign/clear replace the object's content",
                     "loops over grid entities run at least once; an element-wise write inside a loop refreshes the whole container", "paths that throw are ignored"]

main("C01", check)
