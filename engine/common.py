"""Shared driver of the checks: builds the IR of /repo's working tree, runs a rule, reports, writes the evidence file."""
import hashlib, json, os, shutil, subprocess, sys, time, traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("ECGEN_REPO", "/repo")
sys.path.insert(0, HERE)

from ir import Module  # noqa: E402


def tree_hash():
    h = hashlib.sha256()
    files = [os.path.join(HERE, "irdump.cpp"), os.path.join(HERE, "build_ir.sh")]
    for d in ("src", "lib"):
        for root, ds, fs in os.walk(os.path.join(REPO, d)):
            ds.sort()
            for f in sorted(fs):
                if f.endswith((".c", ".h")):
                    files.append(os.path.join(root, f))
    for f in files:
        h.update(f.encode())
        with open(f, "rb") as fh:
            h.update(fh.read())
    return h.hexdigest()[:20]


def load_module():
    b = os.path.join(VERIF, "_build")
    os.makedirs(b, exist_ok=True)
    d = os.path.join(b, "ir-" + tree_hash())
    p = os.path.join(d, "ir.json")
    if not os.path.exists(p):
        for old in os.listdir(b):
            if old.startswith("ir-") and len(old) == 23:
                o = os.path.join(b, old)
                if time.time() - os.path.getmtime(o) > 3600:
                    shutil.rmtree(o, ignore_errors=True)
        t = os.path.join(b, "tmp-%d" % os.getpid())
        r = subprocess.run(["bash", os.path.join(HERE, "build_ir.sh"), t], capture_output=True, text=True,
                           env=dict(os.environ, ECGEN_REPO=REPO))
        if r.returncode:
            sys.stderr.write(r.stdout + r.stderr)
            shutil.rmtree(t, ignore_errors=True)
            raise SystemExit(3)
        try:
            os.rename(t, d)
        except OSError:
            shutil.rmtree(t, ignore_errors=True)
        if not os.path.exists(p):
            p = os.path.join(t, "ir.json")
    return Module(p)


class Broken(Exception):
    """the analysis cannot decide (vanished anchor, lost instance count, engine limit): neither pass nor violation"""


class Check:
    def __init__(self, pid, rule):
        self.pid, self.rule = pid, rule
        self.t0 = time.time()
        self.tier = "thorough" if "--thorough" in sys.argv else os.environ.get("VERIF_TIER", "quick")
        self.obl = []          # (name, ok, detail)
        self.viol = []
        self.cov = {}
        self.assume = []
        self.samples = []

    def ok(self, name, detail=""):
        self.obl.append((name, True, detail))

    def bad(self, key, where, msg, path=None):
        """key: stable identification of the construct; where: file:line or function"""
        self.obl.append((key, False, msg))
        self.viol.append({"key": key, "where": where, "msg": msg, "path": path or []})

    def require(self, cond, msg):
        if not cond:
            raise Broken(msg)

    def obligation(self, cond, key, where, msg, path=None, detail=""):
        if cond:
            self.ok(key, detail)
        else:
            self.bad(key, where, msg, path)
        return cond

    def finish(self):
        kf = []
        p = os.path.join(VERIF, "known_findings.json")
        if os.path.exists(p):
            kf = [k for k in json.load(open(p))["findings"] if k["property"] == self.pid]
        known, new = [], []
        seen = set()
        for v in self.viol:
            if v["key"] in seen:
                continue
            seen.add(v["key"])
            m = [k for k in kf if k["key"] == v["key"]]
            (known if m else new).append(v)
        for v in known:
            print("KNOWN-FINDING: property=%s %s [%s]" % (self.pid, v["msg"].split("\n")[0], v["where"]))
        ev = os.environ.get("ECGEN_EVIDENCE") or os.path.join(VERIF, "evidence")
        os.makedirs(ev, exist_ok=True)
        names = {}
        for n, o, d in self.obl:
            names[n] = names.get(n, True) and o
        nob = len(self.obl)
        ndis = sum(1 for o in self.obl if o[1])
        cov = {"obligations": nob, "discharged": ndis,
               "checker_cmd": "python3 " + os.path.relpath(os.path.abspath(sys.argv[0]), VERIF),
               "trusted_base": ["clang 18 front end and sroa (source to IR)", "engine/absint.py, engine/ir.py (abstract interpreter)",
                                "engine/models.py (meaning of PARI/libc functions)", "this check's rule"],
               "explanation": self.rule,
               "samples": [("%s: %s" % (n, d))[:300] for n, o, d in self.obl if d][:12] or [o[0] for o in self.obl[:12]]}
        cov.update(self.cov)
        json.dump({"property": self.pid, "tier": self.tier if self.tier in ("quick", "thorough") else "quick",
                   "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": self.level, "coverage": cov,
                   "assumptions": self.assume, "wall_s": round(time.time() - self.t0, 2), "violations": len(new)},
                  open(os.path.join(ev, self.pid + ".json"), "w"), indent=1)
        if not new:
            print("%s: %d obligations, %d discharged, %d known finding(s)" % (self.pid, nob, ndis, len(known)))
            return 0
        rp = os.path.join(ev, self.pid + ".violation.txt")
        with open(rp, "w") as f:
            f.write("property %s\nrule: %s\n" % (self.pid, self.rule))
            for v in new:
                f.write("\n%s\n  at %s\n  %s\n" % (v["key"], v["where"], v["msg"]))
                for x in v["path"]:
                    f.write("    via %s\n" % x)
        for v in new[:10]:
            print("%s: %s: %s" % (v["where"], v["key"], v["msg"]))
        print("VIOLATION property=%s replay=%s" % (self.pid, rp))
        return 1

    level = "proof"


def main(pid, rule, fn):
    c = Check(pid, rule)
    try:
        fn(c)
        if not c.obl:
            raise Broken("no rule instance was analysed")
        rc = c.finish()
    except Broken as e:
        # a violation that was established before the analysis broke down is still a violation
        if c.viol:
            rc = c.finish()
            if rc == 1:
                sys.exit(1)
        print("ANALYSIS-BROKEN property=%s %s" % (pid, e))
        sys.exit(3)
    except SystemExit:
        raise
    except Exception:
        traceback.print_exc()
        if c.viol:
            rc = c.finish()
            if rc == 1:
                sys.exit(1)
        print("ANALYSIS-BROKEN property=%s" % pid)
        sys.exit(3)
    sys.exit(rc)
