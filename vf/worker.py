"""Run one shard of one sub-check in this process and write a JSON summary."""
import hashlib
import json
import os
import sys
import time
import traceback


def canon(case):
    return json.dumps(case, sort_keys=True, default=float)


class StopShrink(BaseException):
    pass


def from_code_under_test(exc, repo_src):
    """True when a frame of the code under test raised or led to this exception."""
    tb = exc.__traceback__
    while tb is not None:
        if os.path.realpath(tb.tb_frame.f_code.co_filename).startswith(repo_src):
            return True
        tb = tb.tb_next
    for e in (exc.__cause__, exc.__context__):
        if e is not None and e is not exc and from_code_under_test(e, repo_src):
            return True
    return False


def run_case(prop, case, prec, repo_src, core):
    """Returns (status, message, ctx) with status ok | fail | reject."""
    ctx = core.Ctx(prec=prec)
    try:
        prop(case, ctx)
        return "ok", "", ctx
    except core.Fail as e:
        return "fail", str(e), ctx
    except core.Reject:
        return "reject", "", ctx
    except Exception as e:
        if e.__class__.__module__.startswith("hypothesis"):
            raise
        if from_code_under_test(e, repo_src):
            return "fail", f"raised {type(e).__name__}: {str(e)[:300]}", ctx
        raise


def main(argv):
    spec = json.loads(argv[0])
    out_path = spec["out"]
    t0 = time.monotonic()
    res = dict(spec=spec, evaluations=0, distinct_nontrivial=0, rejected=0, skipped=0, labels={},
               samples=[], worst={}, failure=None, error=None, hashes=[])
    try:
        from . import boot, core

        boot.boot()
        import importlib

        importlib.import_module("vf.checks." + spec["property"].lower())
        sub = next(s for s in core.REGISTRY[spec["property"]] if s.name == spec["sub"])
        strategy, prop = sub.make(spec["prec"])
        repo_src = os.path.realpath(os.path.join(boot.REPO, "src")) + os.sep

        if spec.get("case") is not None:  # replay
            st, msg, ctx = run_case(prop, spec["case"], spec["prec"], repo_src, core)
            res["evaluations"] = 1
            res["worst"] = ctx.worst
            if st == "fail":
                res["failure"] = dict(case=spec["case"], message=msg, shrinks=0)
        else:
            search(spec, sub, strategy, prop, repo_src, core, res, t0)
    except BaseException:
        res["error"] = traceback.format_exc()[-6000:]
    res["wall_s"] = time.monotonic() - t0
    tmp = out_path + ".tmp"
    with open(tmp, "w") as f:
        json.dump(res, f, default=float)
    os.replace(tmp, out_path)


def search(spec, sub, strategy, prop, repo_src, core, res, t0):
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings

    known = [k for k in spec.get("known", [])]
    seen = set()
    state = dict(best=None, deadline=None, fails=0)
    hard = t0 + spec["budget_s"]
    seed = int.from_bytes(
        hashlib.sha256(
            f"{spec['seed']}|{spec['property']}|{sub.name}|{spec['prec']}|{spec['shard']}".encode()
        ).digest()[:8], "big")

    @hypothesis.seed(seed)
    @settings(max_examples=spec["examples"], deadline=None, database=None, derandomize=False,
              report_multiple_bugs=False, print_blob=False,
              phases=(Phase.generate, Phase.shrink),
              suppress_health_check=list(HealthCheck))
    @given(strategy)
    def test(case):
        now = time.monotonic()
        if state["best"] is None and now > hard:
            res["skipped"] += 1
            return
        if state["deadline"] is not None and now > state["deadline"]:
            raise StopShrink()
        key = canon(case)
        status, msg, ctx = run_case(prop, case, spec["prec"], repo_src, core)
        if status == "reject":
            res["rejected"] += 1
            hypothesis.reject()
        if state["best"] is None:
            res["evaluations"] += 1
            for k, v in ctx.labels.items():
                res["labels"][k] = res["labels"].get(k, 0) + 1
            for k, v in ctx.worst.items():
                res["worst"][k] = max(res["worst"].get(k, 0.0), v)
            h = hashlib.sha256(key.encode()).hexdigest()[:16]
            if ctx.nontrivial and h not in seen:
                seen.add(h)
                if len(res["samples"]) < 3 and len(key) < 3000:
                    res["samples"].append(case)
        if status == "fail":
            for k in known:
                if k.get("sub") in (None, sub.name) and _matches(k, case):
                    res["labels"]["known:" + k["name"]] = res["labels"].get("known:" + k["name"], 0) + 1
                    return
            if state["deadline"] is None:
                state["deadline"] = now + spec["shrink_s"]
            state["fails"] += 1
            state["best"] = dict(case=case, message=msg, shrinks=state["fails"] - 1)
            raise core.Fail(msg)

    try:
        test()
    except StopShrink:
        pass
    except Exception:
        if state["best"] is None:
            raise
    res["distinct_nontrivial"] = len(seen)
    res["hashes"] = sorted(seen)
    if state["best"] is not None:
        # confirm outside the library
        st, msg, _ = run_case(prop, json.loads(canon(state["best"]["case"])), spec["prec"], repo_src, core)
        state["best"]["confirmed"] = st == "fail"
        if st == "fail":
            state["best"]["message"] = msg
        res["failure"] = state["best"]


def _matches(k, case):
    """A known finding names the exact region of cases that fail: every listed field equals/inside."""
    for f, v in k.get("where", {}).items():
        x = case.get(f)
        if isinstance(v, dict):
            if "min" in v and not (x is not None and x >= v["min"]):
                return False
            if "max" in v and not (x is not None and x <= v["max"]):
                return False
            if "in" in v and x not in v["in"]:
                return False
        elif x != v:
            return False
    return True


if __name__ == "__main__":
    main(sys.argv[1:])
    sys.stdout.flush()
    os._exit(0)
