"""A verification target: one function (or lemma) of /repo under contract."""
import time
import traceback

import core
import loader
import models
from core import Ctx, Found, PathEnd, Restart, Unsupported


UNROLL = 3


class Target:
    """name; functions: the real functions whose bodies are verified here; run(T): sets up the symbolic
    precondition, calls the real function, states the postcondition."""

    def __init__(self, name, functions, run, specs=None, tables=None, overrides=None, assumptions=(), kind="function", unrollable=True):
        self.name, self.functions, self.run = name, functions, run
        self.specs, self.tables, self.overrides = specs or {}, tables or {}, overrides or {}
        self.assumptions, self.kind, self.unrollable = list(assumptions), kind, unrollable

    def verify(self, prover, budget):
        """With the invariants as annotated; if one of them fails, once more keeping only those which hold
        (a rewritten loop may not need all of them): if everything else is discharged, so is the contract."""
        t = time.time()
        r = self.verify_twice(prover, budget)
        bad = [o for o in r["obligations"] if o.status != "discharged"]
        if bad and self.unrollable and not r["unsupported"] and (r["dropped"] or any("/loop" in o.name for o in r["obligations"]) or any(o.status != "failed" for o in bad)):
            self.confirm(r, bad, prover, max(30, min(120, budget - (time.time() - t))))
        return r

    def confirm(self, r, bad, prover, budget):
        """An obligation which fails under annotated loops tells of the code or of the annotations. The loops are
        followed iteration by iteration, without any annotation, for up to UNROLL iterations: an obligation which
        fails there fails for the code. Otherwise the contract is left undecided, which is no alarm."""
        t = time.time()
        for k in range(1, UNROLL + 1):
            left = budget - (time.time() - t)
            if left < 5 and k > 1:
                break
            u = self.verify_once(prover, left, False, k)
            if any(o.status == "failed" for o in u["obligations"]):
                break
        real = [o for o in u["obligations"] if o.status == "failed"]
        for o in bad:
            if o.status == "failed" and not real:
                o.status = "unknown"
                (o.detail or {})["unconfirmed"] = f"not met within {k} iterations: {u['unsupported'] or 'no failure'}"
        for o in real:
            o.name += f" (loops followed up to {k} iterations)"
        r["obligations"] += real
        r["unrolled"] = {"failed": len(real), "unsupported": u["unsupported"], "iterations": k, "wall_s": time.time() - t}

    def verify_twice(self, prover, budget):
        t = time.time()
        r = self.verify_once(prover, budget, False)
        bad = [o for o in r["obligations"] if o.status != "discharged"]
        if bad and not r["unsupported"] and all("/loop" in o.name for o in bad) is not None and any("/loop" in o.name for o in bad):
            left = budget - (time.time() - t)
            if left > 5:
                r2 = self.verify_once(prover, left, True)
                if not r2["unsupported"] and all(o.status == "discharged" for o in r2["obligations"]):
                    return r2
        return r

    def verify_once(self, prover, budget, houdini, unroll=0):
        t = time.time()
        c = Ctx(prover, deadline=t + budget)
        c.houdini = houdini
        c.unroll = unroll
        res = {"target": self.name, "functions": self.functions, "kind": self.kind, "unsupported": None, "paths": 0}
        self.c = c

        def once():
            core.set_ctx(c)
            models.LOADING[0] = True
            rt = loader.Runtime(models.make_ext(models.tables(**self.tables)), models.BUILTINS, self.specs, self.overrides)
            self.rt = rt
            try:
                models.LOADING[0] = True
                self.fresh_state = {}
                self.run(self)
            finally:
                models.LOADING[0] = False

        try:
            done = c.explore(once)
            res["paths"] = c.paths
            res["complete_paths"] = done
            res["vacuous"] = [str(k) for k, v in c.cover.items() if not v]
            if res["vacuous"]:
                res["unsupported"] = f"contradictory assumptions on all paths through {res['vacuous']}"
            if done == 0:
                res["unsupported"] = "no path reaches the end (vacuous precondition or annotation)"
        except Found:
            pass
        except Unsupported as e:
            res["unsupported"] = str(e)
        except (SyntaxError, FileNotFoundError) as e:
            res["unsupported"] = f"source not readable: {e}"
        except Exception as e:  # the engine itself failed: no verdict
            res["unsupported"] = f"engine: {type(e).__name__}: {e} {traceback.format_exc(limit=-4)}"
        res["obligations"] = c.obligations
        res["wall_s"] = time.time() - t
        res["dropped"] = [f"{k[0]}/loop{k[1]}/{n} ({st})" for k, d in c.dropped.items() for n, st in d.items()]
        if not c.obligations and not res["unsupported"]:
            res["unsupported"] = "no obligation generated"
        return res

    # helpers for run()
    def fn(self, mod, name):
        m = self.rt.load(mod)
        models.LOADING[0] = False
        try:
            return m.ns[name]
        except KeyError:
            raise Unsupported(f"{mod}.{name} does not exist any more")

    def call(self, f, *a, expect=(), **k):
        """Calls the real function; an exception which the contract does not allow is an obligation."""
        try:
            return f(*a, **k)
        except (Unsupported, AssertionError):
            raise
        except expect:
            raise
        except (IndexError, ValueError, KeyError, TypeError, ZeroDivisionError, StopIteration, AttributeError, UnboundLocalError, NameError) as e:
            tb = traceback.extract_tb(e.__traceback__)
            here = [x for x in tb if x.filename.startswith(loader.REPO)]
            if tb and not tb[-1].filename.startswith(loader.REPO) and isinstance(e, (TypeError, AttributeError, NameError)):
                raise Unsupported(f"model: {type(e).__name__}: {e} at {tb[-1].filename.rsplit('/', 1)[-1]}:{tb[-1].lineno}")
            if isinstance(e, TypeError) or isinstance(e, AttributeError):
                raise Unsupported(f"{type(e).__name__}: {e} at line {here[-1].lineno if here else '?'}")
            core.CTX.prove(f"{self.name}/raises no {type(e).__name__} (line-independent: {str(e)[:60]})", False)
            raise PathEnd()


def lemma(name, run):
    return Target(name, [], run, kind="lemma")
