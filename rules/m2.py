"""Obligation witnesses (drivers using m2.hh): compile against /repo, run the
value analysis (tool/bin/m2) and classify every root.

  proved     every VIOLATED call was shown unreachable for all symbolic inputs
             and every REACHED marker is still reachable
  refuted    a REACHED marker is unreachable (every run violates an obligation
             or has undefined behaviour), in the symbolic witness or in one of its constant instances
  undecided  neither: reported, never an alarm"""
from common import *

NCONST = 5
# plain counters in shared_ptr, sums and products up to association and commutation
FLAGS = ["-D_GLIBCXX_TSAN=1", "-funsafe-math-optimizations", "-fno-math-errno", "-ffp-contract=off"]

T0 = time.time()
DEADLINE = 760          # seconds after which no further witness is started (reported as undecided)
STOP = []               # set once a violation is certain: the remaining witnesses cannot change the verdict

def run_unit(unit):
    src, defs, tag = unit
    if STOP or time.time() - T0 > DEADLINE:
        return {}, "skipped" if STOP else "timeout"
    path = os.path.join(DRV, src)
    bc, err = compile_bc(path, defs, tag, extra=FLAGS)
    if not bc:
        return None, err
    js = bc[:-3] + ".json"
    try:
        d = {}
        for mode in ([], ["--top-down"]):   # functions are simplified before they are inlined; what that leaves open is inlined first
            cmd = [os.path.join(VERIF, "tool/bin/m2"), bc, "-o", js] + mode + (["--bad-alloc"] if "BADALLOC" in defs else [])
            try:
                r = run(cmd, timeout=max(30, min(600, T0 + 850 - time.time())))
            except subprocess.TimeoutExpired:
                if mode: break
                return {}, "timeout"
            if r.returncode != 0:
                raise Broken("m2 failed on %s: %s" % (src, r.stderr[:2000]))
            e = json.load(open(js))
            for k, v in e.items():
                if k not in d or (d[k]["violated"] and not missing(d[k]) and (missing(v) or len(v["violated"]) < len(d[k]["violated"]))):
                    d[k] = v
            if not any(v["violated"] and not missing(v) for v in d.values()) or any(missing(v) for v in d.values()):
                break
    finally:
        for f in (bc, js):
            if os.path.exists(f):
                os.unlink(f)
    if not any(x.startswith("VERIF_CONST") for x in defs) and any(missing(v) for v in d.values()):
        STOP.append(unit)
    return d, ""

def repo_error(unit, err):
    """The first compile error is in the body of a function of /repo (not in the witness, e.g. because of a renamed
    entity), or is a failed PROPERTY assertion of the witness."""
    for l in err.split("\n"):
        m = re.match(r"(\S+?):(\d+):\d+: error: (.*)", l)
        if m:
            if m[1].startswith(REPO + "/") or "PROPERTY:" in m[3]:
                return "%s:%s does not compile for the witnesses of %s %s: %s" % (m[1], m[2], unit[0], " ".join(unit[1]), m[3])
            return None
    return None

def missing(v):
    return sorted(set(v["markers"]) - set(v["reached"]))

def decide(c, units, floor=0, compile_is_violation=None):
    """units: [(driver, defs, tag)]. compile_is_violation: function(unit, err) -> text or None"""
    tool()
    tot = disch = 0
    proved, undecided = [], []
    with concurrent.futures.ThreadPoolExecutor(JOBS) as ex:
        results = list(ex.map(run_unit, units))
    pending, broken = {}, []
    for u, (d, err) in zip(units, results):
        if d is None:
            t = compile_is_violation(u, err) if compile_is_violation else None
            if t:
                c.violation("compile:%s%s" % (u[0], u[2]), t)
                continue
            broken.append("witness %s %s does not compile:\n%s" % (u[0], " ".join(u[1]), err[:3000]))
            continue
        if not d and err == "skipped":
            continue
        if not d and err == "timeout":
            undecided.append({"witness": u[0] + u[2], "obligations": ["analysis ran out of time"]})
            print("UNDECIDED property=%s %s%s: analysis ran out of time" % (c.prop, u[0], u[2]))
            continue
        if not d:
            raise Broken("no obligations in " + u[0])
        for k, v in d.items():
            if not v["markers"]:
                raise Broken("root %s has no reachability marker" % k)
            tot += v["obligations"]
            if not v["violated"] and not missing(v):
                disch += v["obligations"]
                proved.append(k)
                continue
            msgs = sorted(set(x["msg"] for x in v["violated"]))
            if missing(v):
                report(c, u, k, v, "for all inputs")
                continue
            disch += max(0, v["obligations"] - len(v["violated"]))
            pending.setdefault((u[0], tuple(u[1]), u[2]), []).append((k, msgs))
    for u, ks in pending.items():
        if c.viol:
            undecided += [{"witness": k, "obligations": msgs} for k, msgs in ks]
            continue
        cu = [(u[0], list(u[1]) + ["VERIF_CONST=%d" % i], u[2] + "_k%d" % i) for i in range(NCONST)]
        with concurrent.futures.ThreadPoolExecutor(JOBS) as ex:
            cres = list(ex.map(run_unit, cu))
        for k, msgs in ks:
            for i, (d, err) in enumerate(cres):
                if d and k in d and missing(d[k]):
                    report(c, u, k, d[k], "confirmed on input vector %d" % i)
                    break
            else:
                undecided.append({"witness": k, "obligations": msgs})
                print("UNDECIDED property=%s %s: %s" % (c.prop, k, "; ".join(msgs)))
    if broken and not c.viol:
        raise Broken(broken[0])
    if not c.viol and len(proved) + len(undecided) < floor:
        raise Broken("too few witnesses: %d" % len(proved))
    c.cov.setdefault("explanation", "obligation witnesses over the public API with fully symbolic inputs; each obligation is decided by the compiler's value analysis on the inlined IR of /repo's code")
    c.cov["witnesses"] = c.cov.get("witnesses", 0) + len(proved) + len(undecided)
    c.cov["obligations"] = c.cov.get("obligations", 0) + tot
    c.cov["discharged"] = c.cov.get("discharged", 0) + disch
    c.cov.setdefault("undecided", [])
    c.cov["undecided"] += undecided
    c.samples += proved[:6]

def report(c, u, k, v, how):
    msgs = sorted(set(x["msg"] for x in v["violated"])) or ["the operation does not return normally (undefined behaviour, missing return or unconditional exception)"]
    c.violation("%s:%s" % (k, msgs[0][:40].replace(" ", "_")), "%s, witness %s: %s (%s)" % (u[0], k, "; ".join(msgs), how))
