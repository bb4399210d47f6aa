"""Check driver: obligations, violations, known findings, evidence."""
import contextlib
import hashlib
import importlib
import json
import os
import signal
import sys
import threading
import time
import traceback

from .index import AnalysisBroken, Index, loc
from .interp import Interp, PathLimit, Policy, show, show_ev

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def load_baseline():
    with open(os.path.join(VERIF, "lib", "baseline.json")) as f:
        return frozenset(json.load(f)["names"])


class OutOfTime(BaseException):
    """An analysis that takes too long on the given source is given up: no verdict on that part."""


PART_S = 40     # for one part of a rule
TOTAL_S = 240   # for all of it


def alarm(seconds):
    """ask for an OutOfTime after so many seconds (0: not at all)"""
    if threading.current_thread() is threading.main_thread() and hasattr(signal, "setitimer"):
        signal.setitimer(signal.ITIMER_REAL, seconds)


def on_alarm(signum, frame):
    raise OutOfTime("the analysis takes too long")


class Check:
    def __init__(self, pid, tier="quick", root=None):
        self.pid = pid
        self.tier = tier
        self.ix = Index(root)
        self.baseline = load_baseline()
        self.obligations = []     # (key, status, where, msg)
        self.stats = {}
        self.analysed = set()
        self.npaths = 0
        self._cache = {}
        self.more = 1 if tier == "quick" else 3     # the thorough tier gives up later
        self.deadline = time.time() + TOTAL_S * self.more
        self.late = False
        self.depth = 0

    # -- analysis
    def paths(self, qual, inline=(), facts=None, bind=None, selfcls=None, heap=None, **kw):
        fi = self.ix.func(qual) if isinstance(qual, str) else qual
        key = None
        mr = kw.get("may_raise")
        if not heap and not facts and not bind and kw.get("iters") is None:
            key = (fi.qualname, tuple(inline), id(mr), selfcls, tuple(sorted((k, str(v)) for k, v in kw.items() if k != "may_raise")))
            if key in self._cache:
                return self._cache[key]
        if self.tier != "quick":
            kw["max_paths"] = 4 * kw.get("max_paths", 6000)
        it = Interp(self.ix, Policy(self.baseline, inline=inline, **kw))
        res = it.run(fi, bind=bind, selfcls=selfcls, facts=facts, heap=heap)
        self.analysed.add(fi.qualname)
        self.npaths += len(res)
        if key is not None:
            self._cache[key] = res
        return res

    def where(self, fi, node=None):
        return loc(fi, node if node is not None else fi.node)

    # -- obligations
    def ok(self, key, where="", msg=""):
        self.obligations.append((key, "ok", where, msg))

    def bad(self, key, where, msg):
        self.obligations.append((key, "violated", where, msg))

    def unknown(self, key, where="", msg=""):
        self.obligations.append((key, "undecided", where, msg))

    def require(self, key, cond, where, msg):
        if cond is None:
            self.unknown(key, where, msg)
        elif cond:
            self.ok(key, where, msg)
        else:
            self.bad(key, where, msg)
        return bool(cond)

    @contextlib.contextmanager
    def section(self, key, where=""):
        """Analysis limits inside become an undecided obligation instead of a verdict."""
        self.depth += 1
        if self.depth == 1:
            alarm(max(1, min(PART_S * self.more, self.deadline - time.time())))
        try:
            yield
        except OutOfTime as e:
            self.late = True
            self.unknown(key, where, str(e))
        except (PathLimit, RecursionError, MemoryError) as e:
            self.unknown(key, where, str(e) or type(e).__name__)
        except (AttributeError, IndexError, KeyError, TypeError, ValueError, AssertionError) as e:
            # the construct under analysis has a form the rule does not know: no verdict either way
            # (`floor` still turns a wholesale loss of the subject into a broken check)
            if os.environ.get("VERIF_DEBUG"):
                raise
            self.unknown(key, where, f"form not recognised ({type(e).__name__}: {e})")
        finally:
            self.depth -= 1
            if self.depth == 0:
                alarm(max(0.01, self.deadline - time.time()))

    def floor(self, n):
        """Fewer decided obligations than confirmed by hand means the analysis lost its subject."""
        d = sum(1 for o in self.obligations if o[1] != "undecided")
        v = sum(1 for o in self.obligations if o[1] == "violated")
        if d < n and not v and not self.late:
            raise AnalysisBroken(f"only {d} obligations decided, at least {n} expected")


def known_findings():
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return json.load(f)["findings"]


def run(pid, tier, root=None, quiet=False, write=True):
    t0 = time.time()
    mod = importlib.import_module(f"rules.{pid.lower()}")
    c = Check(pid, tier, root)
    with contextlib.suppress(ValueError):     # not in the main thread
        signal.signal(signal.SIGALRM, on_alarm)
    try:
        alarm(TOTAL_S * c.more)
        mod.check(c)
    except OutOfTime as e:
        c.late = True
        c.unknown(f"{pid}:time", "", str(e))
    finally:
        alarm(0)
    known = {k["key"]: k for k in known_findings() if k["property"] == pid and k.get("status") == "known"}
    viol, seen_known = {}, {}
    for key, status, where, msg in c.obligations:
        if status != "violated":
            continue
        if key in known:
            seen_known[key] = (where, msg)
        else:
            viol.setdefault(key, []).append((where, msg))
    n_ok = sum(1 for o in c.obligations if o[1] == "ok")
    n_un = sum(1 for o in c.obligations if o[1] == "undecided")
    cov = {"explanation": getattr(mod, "RULE", mod.__doc__ or "").strip(),
           "functions_analysed": sorted(c.analysed), "abstract_paths": c.npaths,
           "obligations_checked": len(c.obligations), "obligations_ok": n_ok, "obligations_undecided": n_un,
           "undecided": [list(o) for o in c.obligations if o[1] == "undecided"][:40],
           "samples": [f"{o[0]} @ {o[2]}: {o[3]}" for o in c.obligations if o[1] == "ok"][:12],
           "known_findings": sorted(seen_known), "modules_parsed": len(c.ix.modules)}
    cov.update(c.stats)
    ev = {"property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": "other", "coverage": cov,
          "assumptions": getattr(mod, "ASSUMPTIONS", ["the analysed names are not rebound dynamically from outside the package"]),
          "wall_s": round(time.time() - t0, 3), "violations": len(viol)}
    if write:
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", f"{pid}.json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
    if not quiet:
        print(f"{pid}: {len(c.analysed)} functions, {c.npaths} abstract paths, {len(c.obligations)} obligations: "
              f"{n_ok} hold, {n_un} undecided, {sum(len(v) for v in viol.values())} violated, {len(seen_known)} known finding(s)")
        for k, (where, msg) in seen_known.items():
            print(f"KNOWN-FINDING: property={pid} {known[k]['what']} [{where}: {msg}]")
        und = [o for o in c.obligations if o[1] == "undecided"]
        for o in und[:10]:
            print(f"  undecided {o[0]} at {o[2]}: {o[3]}"[:400])
        if len(und) > 10:
            print(f"  undecided: {len(und) - 10} more (first 40 in the evidence)")
    if viol:
        rp = os.path.join(VERIF, "evidence", f"{pid}.violation.json")
        if write:
            with open(rp, "w") as f:
                json.dump([{"rule": k, "at": w, "what": m} for k, v in viol.items() for w, m in v], f, indent=1)
        if not quiet:
            for k, v in viol.items():
                for w, m in list(dict.fromkeys(v))[:3]:
                    print(f"  {w}: [{k}] {m}")
            print(f"VIOLATION property={pid} replay={rp}")
        return 1, viol, c
    return 0, viol, c


def main(argv):
    pid = argv[1]
    tier = os.environ.get("VERIF_TIER") or ("thorough" if "--thorough" in argv else "quick")
    if "--thorough" in argv:
        tier = "thorough"
    try:
        rc, _, _ = run(pid, tier)
    except AnalysisBroken as e:
        print(f"ANALYSIS-BROKEN property={pid}: {e}")
        return 2
    except Exception:
        traceback.print_exc()
        print(f"ANALYSIS-BROKEN property={pid}: internal error")
        return 3
    return rc
