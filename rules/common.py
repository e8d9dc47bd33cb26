"""Shared plumbing of the checks: build the tool, compile witness drivers against
/repo's current working tree, run the analysis, write evidence, report."""
import concurrent.futures, json, os, re, subprocess, sys, time, hashlib

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
DRV = os.path.join(VERIF, "drivers")
CLANG = "clang++"
BASE = [CLANG, "-std=gnu++20", "-DHAVE_CONFIG_H", "-DNDEBUG", "-I" + DRV, "-I" + DRV + "/cfg", "-I" + DRV + "/cfg/inc", "-I" + REPO,
        "-isystem", "/opt/dune/venv/include", "-w", "-fno-caret-diagnostics", "-ferror-limit=3"]
IRFLAGS = ["-O2", "-Xclang", "-disable-llvm-passes", "-g", "-emit-llvm", "-c"]
OPTFLAGS = ["-O2", "-g1", "-fno-vectorize", "-fno-slp-vectorize", "-fno-unroll-loops", "-emit-llvm", "-S"]
TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
JOBS = int(os.environ.get("VERIF_JOBS", "8"))


class Broken(Exception):
    """the analysis itself could not be carried out (neither pass nor violation)"""


def tool():
    subprocess.run(["bash", os.path.join(VERIF, "tool/build.sh")], check=True)
    return os.path.join(VERIF, "tool/bin/dfa")


def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, **kw)


def compile_bc(src, defs=(), tag="", out=None, extra=()):
    """driver -> unoptimised bitcode with debug info. Returns (path, stderr)"""
    os.makedirs(BUILD, exist_ok=True)
    out = out or os.path.join(BUILD, os.path.basename(src).replace(".cc", "") + tag + "." + str(os.getpid()) + ".bc")
    r = run(BASE + IRFLAGS + list(extra) + [d if d[0] == "-" else "-D" + d for d in defs] + [src, "-o", out])
    return (out if r.returncode == 0 else None), r.stderr


def compile_opt(src, defs=(), tag="", extra=()):
    os.makedirs(BUILD, exist_ok=True)
    out = os.path.join(BUILD, os.path.basename(src).replace(".cc", "") + tag + "." + str(os.getpid()) + ".ll")
    r = run(BASE + OPTFLAGS + list(extra) + ["-D" + d for d in defs] + [src, "-o", out])
    return (out if r.returncode == 0 else None), r.stderr


def syntax_only(src, defs=(), extra=()):
    return run(BASE + ["-fsyntax-only"] + list(extra) + ["-D" + d for d in defs] + [src])


def facts_for(unit):
    """unit = (driver, defs, tag): compile and analyse; returns dict root->facts"""
    src, defs, tag = unit
    src = os.path.join(DRV, src)
    bc, err = compile_bc(src, defs, tag)
    if not bc:
        raise Broken("driver %s %s does not compile:\n%s" % (src, " ".join(defs), err[:3000]))
    js = bc[:-3] + ".json"
    r = run([os.path.join(VERIF, "tool/bin/dfa"), "--prefix", REPO + "/dune/", "--prefix", DRV + "/", bc, "-o", js])
    if r.returncode != 0:
        raise Broken("dfa failed on %s: %s" % (bc, r.stderr[:2000]))
    d = json.load(open(js))
    os.unlink(bc)
    os.unlink(js)
    return d


def analyse(units, strict=True):
    tool()
    res = {}
    with concurrent.futures.ThreadPoolExecutor(JOBS) as ex:
        for d in ex.map(facts_for, units):
            for k, v in d.items():
                if k in res:
                    raise Broken("duplicate root " + k)
                res[k] = v
    for v in res.values():
        for p in v["params"]:
            for l in p["leaves"]:
                # td: data dependences only, t: data and control dependences
                l["td"] = [t for t in l["t"] if not t.startswith("c:")]
                l["t"] = sorted(set(t[2:] if t.startswith("c:") else t for t in l["t"]))
    for k, v in res.items():
        if not strict:
            continue
        if not v["inlined_ok"]:
            raise Broken("inlining budget exceeded in " + k)
        if not v["converged"]:
            raise Broken("fixpoint not reached in " + k)
    return res


def known_findings(prop):
    """lines of known-findings.txt: 'KNOWN property=<id> key=<key> text'"""
    res = {}
    p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", line.strip())
            if m and m.group(1) == prop:
                res[m.group(2)] = m.group(3)
    return res


class Check:
    def __init__(self, prop, level="other"):
        self.prop, self.level = prop, level
        self.t0 = time.time()
        self.viol = []
        self.cov = {}
        self.assumptions = []
        self.samples = []

    def violation(self, key, text):
        self.viol.append((key, text))

    def finish(self):
        known = known_findings(self.prop)
        new = [(k, t) for k, t in self.viol if k not in known]
        old = [(k, t) for k, t in self.viol if k in known]
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        ev = {"property": self.prop, "tier": TIER if TIER in ("quick", "thorough") else "quick", "seed": SEED, "level": self.level,
              "coverage": self.cov, "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2), "violations": len(new)}
        if self.samples:
            self.cov.setdefault("samples", self.samples[:12])
        json.dump(ev, open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w"), indent=1)
        for k in sorted(set(k for k, t in old)):
            print("KNOWN-FINDING: property=%s %s" % (self.prop, known[k]))
        if new:
            rp = os.path.join(VERIF, "evidence", self.prop + ".replay.txt")
            with open(rp, "w") as f:
                for k, t in new:
                    f.write("[%s] %s\n" % (k, t))
            for k, t in new[:12]:
                print("  %s: %s" % (k, t[:600]))
            if len(new) > 12:
                print("  ... %d more in %s" % (len(new) - 12, rp))
            print("VIOLATION property=%s replay=%s" % (self.prop, rp))
            sys.exit(1)
        print("OK property=%s %s" % (self.prop, json.dumps({k: v for k, v in self.cov.items() if isinstance(v, (int, str)) and len(str(v)) < 200})))
        sys.exit(0)


def main(prop, fn, level="other"):
    c = Check(prop, level)
    try:
        fn(c)
    except Broken as e:
        print("ANALYSIS-BROKEN property=%s: %s" % (prop, e))
        sys.exit(2)
    c.finish()
