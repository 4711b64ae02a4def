"""Check harness: obligations, bounded replays, known findings, evidence and exit code."""
import json
import os
import re
import sys
import time
import traceback

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = os.environ.get("VERIF_TIER", "quick")
THOROUGH = TIER == "thorough"

sys.path.insert(0, REPO)
_VT = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
if _VT not in sys.path:
    sys.path.append(_VT)

from .guard import Hang, limit  # noqa: E402,F401
from .terms import Unsupported  # noqa: E402

ITEM_LIMIT = 240 if not THOROUGH else 3600
BUDGET = 780 if not THOROUGH else 36000


class Refuted(Exception):
    """An obligation failed; `witness` is a counterexample (or None)."""

    def __init__(self, msg, witness=None, replayed=None):
        super().__init__(msg)
        self.witness = witness
        self.replayed = replayed


class Known(Exception):
    """The obligation/replay shows exactly a listed known finding."""

    def __init__(self, key, msg):
        super().__init__(msg)
        self.key = key
        self.msg = msg


def known_findings(pid):
    res = {}
    path = os.path.join(ROOT, "KNOWN_FINDINGS.md")
    for line in open(path):
        m = re.match(r"known: property=(\S+) key=(\S+) (.*)", line.strip())
        if m and m.group(1) == pid:
            res[m.group(2)] = m.group(3)
    return res


class Check:
    def __init__(self, pid, level, technique_note=""):
        self.pid, self.level = pid, level
        self.t0 = time.time()
        self.obs = []
        self.bounded = []
        self.known_hit = {}
        self.violations = []
        self.assumptions = []
        self.trusted = []
        self.functions = set()
        self.samples = []
        self.known = known_findings(pid)
        self.counts = {}

    # ------------------------------------------------------------- obligations
    def ob(self, name, func, thunk, bounded_by=None):
        """Discharge one obligation.  `thunk` returns the back end that accepted it."""
        t0 = time.time()
        self.functions.add(func)
        rec = {"name": name, "function": func}
        if t0 - self.t0 > BUDGET:
            rec.update(status="undecided", detail="the time budget of the check is used up", time=0.0)
            self.obs.append(rec)
            return rec["status"]
        try:
            with limit(ITEM_LIMIT, name):
                backend = thunk()
            rec.update(status="discharged", backend=backend or "normal-form")
        except Known as e:
            if e.key in self.known:
                rec.update(status="known-finding", detail=str(e), key=e.key)
                self.known_hit.setdefault(e.key, str(e))
            else:
                rec.update(status="refuted", detail=str(e))
                self._violate(name, str(e), None, False)
        except Refuted as e:
            rec.update(status="refuted", detail=str(e)[:2000], witness=_js(e.witness))
            self._violate(name, str(e), {"witness": _js(e.witness), "replayed": _js(e.replayed)}, bool(e.replayed))
        except Unsupported as e:
            rec.update(status="undecided", detail=str(e)[:500])
        except Exception as e:
            rec.update(status="undecided", detail="".join(traceback.format_exception_only(type(e), e))[:500],
                       trace=traceback.format_exc()[-1500:])
        rec["time"] = round(time.time() - t0, 4)
        self.obs.append(rec)
        return rec["status"]

    # ------------------------------------------------------------- bounded replays
    def replay(self, name, func, thunk):
        """A bounded concrete check on the real code.

        `thunk` returns (evaluations, distinct) and raises `Refuted`/`Known`/AssertionError.
        """
        t0 = time.time()
        rec = {"name": name, "function": func}
        if t0 - self.t0 > BUDGET:
            self.skip(name, func, "the time budget of the check is used up")
            return "skipped"
        try:
            with limit(ITEM_LIMIT, name):
                r = thunk()
            n, d = r if isinstance(r, tuple) else (r or 1, r or 1)
            rec.update(status="held", evaluations=int(n), distinct=int(d))
        except Known as e:
            if e.key in self.known:
                rec.update(status="known-finding", detail=str(e), key=e.key, evaluations=1, distinct=1)
                self.known_hit.setdefault(e.key, str(e))
            else:
                rec.update(status="failed", detail=str(e), evaluations=1, distinct=1)
                self._violate(name, str(e), {"detail": str(e)}, True)
        except Refuted as e:
            rec.update(status="failed", detail=str(e)[:2000], evaluations=1, distinct=1)
            self._violate(name, str(e), {"input": _js(e.witness), "detail": str(e)}, True)
        except Exception as e:
            # the code under test raised on an input on which it must work
            rec.update(status="failed", detail=traceback.format_exc()[-3000:], evaluations=1, distinct=1)
            self._violate(name, f"{type(e).__name__}: {e}", {"traceback": traceback.format_exc()[-4000:]}, True)
        rec["time"] = round(time.time() - t0, 4)
        self.bounded.append(rec)
        return rec["status"]

    def skip(self, name, func, why):
        self.bounded.append({"name": name, "function": func, "status": "skipped", "detail": why, "evaluations": 0, "distinct": 0, "time": 0})

    def _violate(self, name, msg, data, has_input):
        self.violations.append({"name": name, "message": msg, "data": data, "has_input": has_input})

    # ------------------------------------------------------------- result
    def finish(self):
        undecided = [o for o in self.obs if o["status"] == "undecided"]
        n = len(self.obs)
        disch = sum(o["status"] == "discharged" for o in self.obs)
        nontriv = sum(b.get("distinct", 0) for b in self.bounded)
        evals = sum(b.get("evaluations", 0) for b in self.bounded)
        backends = {}
        for o in self.obs:
            if o["status"] == "discharged":
                b = backends.setdefault(o["backend"], {"obligations": 0, "seconds": 0.0})
                b["obligations"] += 1
                b["seconds"] = round(b["seconds"] + o["time"], 4)
        cov = {
            "obligations": n,
            "discharged": disch,
            "undecided": [{"name": o["name"], "why": o["detail"]} for o in undecided],
            "known_findings": [o["name"] for o in self.obs if o["status"] == "known-finding"],
            "refuted": [o["name"] for o in self.obs if o["status"] == "refuted"],
            "checker_cmd": f"cd /verif && VERIF_SEED={SEED} VERIF_TIER={TIER} ./check {self.pid}",
            "trusted_base": self.trusted,
            "functions_under_contract": sorted(self.functions),
            "back_ends": backends,
            "evaluations": evals,
            "distinct_nontrivial": nontriv,
            "rule": "bounded replays on the real code (never counted as proved); an evaluation is one comparison of an observed value or law with the specification on one generated input, distinct by input",
            "samples": (self.samples + [f"{b['name']}: {b['status']} ({b.get('evaluations')} evaluations)" for b in self.bounded])[:40],
            "bounded": [{k: v for k, v in b.items() if k != "detail"} for b in self.bounded],
            "obligation_list": [{k: v for k, v in o.items() if k in ("name", "function", "status", "backend", "time")} for o in self.obs],
            "explanation": "obligations are verification conditions generated from /repo's current source in this run; bounded replays run the real code",
        }
        cov.update(self.counts)
        level = self.level
        if self.level == "proof" and (undecided or disch == 0):
            level = "other"
        ev = {
            "property": self.pid, "tier": TIER if TIER in ("quick", "thorough") else "quick", "seed": SEED, "level": level,
            "coverage": cov, "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2),
            "violations": len(self.violations),
        }
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        with open(os.path.join(ROOT, "evidence", f"{self.pid}.json"), "w") as f:
            json.dump(ev, f, indent=1)
        for o in self.obs:
            if o["status"] != "discharged":
                print(f"  obligation {o['name']} [{o['function']}]: {o['status']} - {str(o.get('detail'))[:300]}")
        for b in self.bounded:
            if b["status"] not in ("held",):
                print(f"  bounded {b['name']} [{b['function']}]: {b['status']} - {str(b.get('detail'))[-700:]}")
        print(f"{self.pid}: {disch}/{n} obligations discharged, {len(undecided)} undecided; "
              f"{len(self.bounded)} bounded replays, {evals} evaluations; {ev['wall_s']} s")
        for k, msg in self.known_hit.items():
            print(f"KNOWN-FINDING: property={self.pid} {k}: {self.known[k]}")
        if n + len(self.bounded) == 0:
            print("error: no obligation was generated")
            return 2
        if self.violations:
            concrete = [v for v in self.violations if v["has_input"]]
            d = os.path.join(ROOT, "evidence", "replay")
            os.makedirs(d, exist_ok=True)
            path = os.path.join(d, f"{self.pid}.json")
            with open(path, "w") as f:
                json.dump({"property": self.pid, "seed": SEED, "violations": self.violations,
                           "rerun": cov["checker_cmd"]}, f, indent=1, default=str)
            tail = "" if concrete else " no-failing-input-found"
            print(f"VIOLATION property={self.pid} replay={path}{tail}")
            return 1
        return 0


def _js(x):
    try:
        json.dumps(x)
        return x
    except Exception:
        pass
    if isinstance(x, dict):
        return {str(k): _js(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [_js(v) for v in x]
    if hasattr(x, "tolist"):
        return x.tolist()
    return str(x)
