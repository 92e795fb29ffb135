"""Obligations, known findings and evidence of one check."""
import json
import os
import pickle
import resource
import signal
import sys
import time

from build import VERIF
from vg import Undecided

sys.setrecursionlimit(20000)


class Report(object):
    def __init__(self, prop, technique):
        self.prop = prop
        self.technique = technique
        self.t0 = time.time()
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        try:
            self.seed = int(os.environ.get("VERIF_SEED", "0"))
        except ValueError:
            self.seed = 0
        self.items = []          # (key, status, text)
        self.functions = set()
        self.counts = {}
        self.samples = []
        self.assumptions = []
        self.floors = []
        self.known = load_known(prop)

    # -- obligations ------------------------------------------------------------
    def add(self, key, status, text=""):
        self.items.append((key, status, text))

    def oblige(self, key, f, seconds=None):
        """f() -> None/True: holds; a string or list of strings: violated;
        raises Undecided: not decided"""
        if seconds is not None:
            res = isolated(lambda: run_one(key, f), seconds)
        else:
            res = run_one(key, f)
        for k, s, t in res:
            self.add(k, s, t)

    def many(self, group, f, seconds=120):
        """f(emit) produces several obligations in a separate process"""
        def go():
            out = []
            try:
                f(lambda k, s, t="": out.append((k, s, t)))
            except Undecided as e:
                out.append((group, "undecided", str(e)))
            except RecursionError:
                out.append((group, "undecided", "recursion limit"))
            return out
        for k, s, t in isolated(go, seconds, group):
            self.add(k, s, t)

    def floor(self, what, n, least):
        """a rule that finds fewer sites than were confirmed by hand is broken"""
        self.counts[what] = n
        if n < least:
            self.floors.append("%s: %d found, at least %d expected" % (what, n, least))

    # -- outcome --------------------------------------------------------------
    def finish(self):
        # the worst verdict per key counts
        best = {}
        order = {"ok": 0, "undecided": 1, "violation": 2}
        for k, s, t in self.items:
            if k not in best or order[s] > order[best[k][0]]:
                best[k] = (s, t)
        viol = {k: t for k, (s, t) in best.items() if s == "violation"}
        und = {k: t for k, (s, t) in best.items() if s == "undecided"}
        good = [k for k, (s, t) in best.items() if s == "ok"]
        known = {k: t for k, t in viol.items() if k in self.known}
        new = {k: t for k, t in viol.items() if k not in self.known}
        cov = {
            "explanation": self.technique,
            "functions_analysed": len(self.functions),
            "obligations": len(best),
            "discharged": len(good),
            "undecided": len(und),
            "known_findings_seen": len(known),
            "samples": self.samples[:12] or sorted(good)[:12],
        }
        if und:
            cov["undecided_items"] = [{"item": k, "why": str(t)[:300]} for k, t in sorted(und.items())][:60]
        cov.update(self.counts)
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": "other", "coverage": cov,
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 3), "violations": len(new)}
        d = os.path.join(VERIF, "evidence")
        os.makedirs(d, exist_ok=True)
        tmp = os.path.join(d, ".%s.%d" % (self.prop, os.getpid()))
        with open(tmp, "w") as f:
            json.dump(ev, f, indent=1, sort_keys=True)
            f.write("\n")
        os.rename(tmp, os.path.join(d, self.prop + ".json"))
        print("%s: %d functions, %d obligations: %d hold, %d undecided, %d violated (%d of them listed)" % (
            self.prop, len(self.functions), len(best), len(good), len(und), len(viol), len(known)))
        for k, v in sorted(self.counts.items()):
            print("  %s: %s" % (k, v if not isinstance(v, (list, dict)) else len(v)))
        for k, t in sorted(und.items()):
            print("  undecided %s: %s" % (k, str(t)[:200]))
        for k in sorted(known):
            print("KNOWN-FINDING: property=%s %s" % (self.prop, self.known[k]))
        if self.floors:
            for x in self.floors:
                print("broken check: " + x)
            return 2
        if new:
            rp = os.path.join(d, "replay-%s.txt" % self.prop)
            with open(rp, "w") as f:
                for k, t in sorted(new.items()):
                    f.write("%s\n    %s\n" % (k, t))
            for k, t in sorted(new.items()):
                print("  violated %s: %s" % (k, str(t)[:600]))
            print("VIOLATION property=%s replay=%s" % (self.prop, rp))
            return 1
        return 0


def run_one(key, f):
    try:
        r = f()
    except Undecided as e:
        return [(key, "undecided", str(e))]
    except RecursionError:
        return [(key, "undecided", "recursion limit")]
    if r is None or r is True:
        return [(key, "ok", "")]
    if isinstance(r, str):
        return [(key, "violation", r)]
    return [(key, "violation", "; ".join(r))] if r else [(key, "ok", "")]


def isolated(f, seconds, name="obligation"):
    """run f in a child with its own time and memory limit"""
    r, w = os.pipe()
    sys.stdout.flush()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
            signal.alarm(int(seconds))
            try:
                out = f()
            except MemoryError:
                out = [(name, "undecided", "memory limit")]
            with os.fdopen(w, "wb") as p:
                pickle.dump(out, p)
        except BaseException as e:      # reported by the parent
            import traceback
            sys.stderr.write(traceback.format_exc()[-3000:])
            code = 3
        finally:
            os._exit(code)
    os.close(w)
    with os.fdopen(r, "rb") as p:
        data = p.read()
    _, st = os.waitpid(pid, 0)
    if data:
        return pickle.loads(data)
    if os.WIFSIGNALED(st) and os.WTERMSIG(st) in (signal.SIGALRM, signal.SIGKILL, signal.SIGSEGV):
        return [(name, "undecided", "resource limit")]
    return [(name, "undecided", "analysis failed")] if not os.environ.get("VERIF_STRICT") else [(name, "violation", "analysis crashed")]


def load_known(prop):
    out = {}
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("finding: property=%s " % prop):
                rest = l[len("finding: property=%s " % prop):]
                assert rest.startswith("key="), l
                key, _, what = rest[4:].partition(" :: ")
                out[key.strip()] = "%s :: %s" % (key.strip(), what.strip())
    return out
