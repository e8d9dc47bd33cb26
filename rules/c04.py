import m2
from common import *

def refers(l, obj):
    # exact interior pointers; the contents of opaque members (elem(..)) are values that were copied by the library type
    return sorted(x for x in l["l"] + l["el"] if re.match(r"(in\()?%s(\b|$)" % obj, x))

def srcs(ts):
    # provenance classes, with source/destination objects identified
    return set(t.split(".")[0] for t in ts) - {"P0", "P1"}

def check(c):
    facts = analyse([("c04.cc", ["PART=%d" % i], "_%d" % i) for i in range(6)])
    n = npt = ncell = 0
    for k in sorted(facts):
        f = facts[k]
        op = {"copy": "copy construction", "move": "move construction", "asgn": "copy assignment"}[k.split("_")[1]]
        name = k.split("_", 2)[2]
        P = {p["name"]: p for p in f["params"]}
        cls = P["P1"]["type"].split("<")[0]
        n += 1
        if not f["returns"]:
            c.violation("%s:%s" % (k, "noreturn"), "%s of %s never returns normally" % (op, cls))
            continue
        src = {(l["off"], l["path"]): l for l in P["P0"]["leaves"]}
        for l in P["P1"]["leaves"]:
            ncell += 1
            if l["l"]:
                npt += 1
            r = refers(l, "P0")
            if r:
                c.violation("%s:%s" % (k, l["path"]), "%s: after %s from a bound object, member '%s' of the new object still points into the source object (%s) (witness %s)" % (cls, op, l["path"], ", ".join(r), k))
                continue
            s = src.get((l["off"], l["path"]))
            if s is None or op == "move construction":
                continue
            # the copy must carry the state established by bind(): everything the source member was computed from
            miss = srcs(s["td"]) - srcs(l["t"])
            if miss:
                c.violation("%s:%s" % (k, l["path"]), "%s: %s drops the bound state of member '%s' (source derives it from %s, the copy does not) (witness %s)" % (cls, op, l["path"], ", ".join(sorted(miss)), k))
        if len(c.samples) < 6:
            c.samples.append({"witness": k, "class": cls, "operation": op, "members": [l["path"] for l in P["P1"]["leaves"]][:6]})
    if n < 90 or npt < 300:
        raise Broken("too few instances %d %d" % (n, npt))
    c.cov = {"explanation": "history witnesses (copy/move/assign from bound and unbound sources to bound and unbound targets, then rebind/unbind/destroy the source) decided by value analysis, and points-to analysis of copy construction / move construction / copy assignment of bound local views, local functions and helper geometries: no member of the new object may point into the source object, and every member must carry the provenance of the source's member",
             "operations": n, "members": ncell, "pointer_members": npt, "instructions_analysed": sum(f["instructions"] for f in facts.values())}
    kinds = ["KAnalytic", "KAnalyticD", "KComposed", "KFaceNormal", "KDiscrete", "KDiscreteD", "KCoarse0", "KCoarse1", "KCoarse2", "KFine0", "KFine1", "KFine2"]
    m2.decide(c, [("c04m.cc", ["FINECASE=1"] + (["KIND=" + k] if k else []), "_" + k) for k in [""] + kinds], floor=160)
    c.assumptions = ["opaque library types copy by value", "grid and basis of the history witnesses are uninterpreted"]

main("C04", check)
