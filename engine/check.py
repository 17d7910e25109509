#!/usr/bin/env python3
"""Driver: decide one property from the current sources of the library.

usage: check.py <property> [quick|thorough]
exit 0: every obligation discharged.  exit 1 + VIOLATION line: some obligation failed.
exit 2: the analysis could not give an answer (build failure, vanished anchor, unmodelled construct)."""
import fnmatch
import json
import multiprocessing as mp
import os
import resource
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
sys.setrecursionlimit(200000)
import build      # noqa: E402
import irparse    # noqa: E402
import vg         # noqa: E402
import effects    # noqa: E402
from props import PROPS   # noqa: E402

ASSUME_IV = [
    "numeric range analysis: binary32 arithmetic with round-to-nearest is modelled exactly (bounds rounded outward in the abstract domain); "
    "reference functions are evaluated in double precision on nine or more nodes per piece of the input domain, deviation from the chord "
    "enlarged by 40 percent",
    "functions called by the special functions (square root, reciprocal square root) are replaced there by their proved error bounds",
    "clang 18 front end, x86-64 data layout, no fused multiply-add, the library's default configuration",
]
ASSUME = [
    "floating-point arithmetic is abstracted by exact real arithmetic (rounding and overflow are outside the rule) "
    "unless an operand is a bit-level unknown",
    "the elementary functions of the math module are uninterpreted primitives for real-valued operands",
    "clang 18 front end at -O0, x86-64 data layout, the library's default configuration",
]


def run_entry(args):
    mod, name, tmo, deep = args[:4]
    zero = args[4] if len(args) > 4 else None
    t0 = time.time()
    if isinstance(tmo, tuple):
        tmo = max(5, int(tmo[1] - t0))
    res = dict(entry=name, viol=[], error=None, obl={}, accesses=0, steps=0, funcs=[], bdd=0)
    try:
        import signal

        def alarm(*_):
            raise vg.AnalysisError("time limit of %d s for entry %s" % (tmo, name))
        signal.signal(signal.SIGALRM, alarm)
        signal.alarm(tmo)
        resource.setrlimit(resource.RLIMIT_AS, ((8 if deep else 4) << 30,) * 2)
        e = vg.Engine(mod)
        e.zero_at = zero
        if deep or "_big" in name:
            e.max_visits = 20000000
        try:
            mem = e.init_globals()
            _, _, pc = e.call(name, [], mem, 1, None)
            res["nreal"] = e.nreal
            if zero is not None:
                # only a result that a division by zero makes NaN or infinite is decided by a degenerate run
                e.viol = [v for v in e.viol if e.div0 and v.get("value") in ("nan", "inf")]
            if not e.viol and (pc == 0 or not e.feasible(pc)):
                res["error"] = "entry %s never completes in the analysis" % name
        except vg.Nonterminating as x:
            e.viol.append(dict(kind="loop", loc=x.loc, msg=str(x), trace=x.trace, cond="always"))
        except (vg.AnalysisError, RecursionError, MemoryError, KeyError, AttributeError, TypeError, ValueError,
                AssertionError, IndexError, ZeroDivisionError, OverflowError) as x:
            res["error"] = "%s: %s" % (type(x).__name__, str(x)[:500])
            if os.environ.get("VF_DEBUG"):
                traceback.print_exc()
        signal.alarm(0)
        res.update(viol=e.viol, obl=e.obl, accesses=e.accesses, steps=e.steps,
                   funcs=sorted(f for f in e.funcs_seen if "qlibs" in f), bdd=len(e.B.var))
    except Exception as x:      # noqa
        res["error"] = "%s: %s" % (type(x).__name__, str(x)[:500])
        if os.environ.get("VF_DEBUG"):
            traceback.print_exc()
    res["wall"] = time.time() - t0
    return res


def src_line(fn):
    """definition of a library function, for reports"""
    import re
    for f in ("ffmath.cpp", "fp16.cpp", "include/ffmath.hpp", "include/fp16.hpp"):
        try:
            with open(os.path.join(build.REPO, "src", f)) as h:
                for i, l in enumerate(h, 1):
                    if re.search(r"(ffmath::|fp16::|inline float )%s\s*\(" % re.escape(fn), l) and not l.rstrip().endswith(";"):
                        return "src/%s:%d" % (f, i)
        except OSError:
            pass
    return "src (function %s)" % fn


def run_iv(unit, tier):
    """numeric range analysis in a separate interpreter (needs numpy)"""
    import subprocess
    cmd = ["python3-vt", os.path.join(HERE, "ivrun.py"), unit["group"], tier] + ([",".join(unit["only"])] if unit.get("only") else [])
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    try:
        d = json.loads(p.stdout)
    except ValueError:
        return [dict(entry="iv:" + unit["group"], viol=[], error="analysis failed: " + (p.stderr or p.stdout)[-400:], obl={}, accesses=0,
                     steps=0, funcs=[], bdd=0, wall=0)]
    if "build" in d:
        raise build.BuildError(d["build"])
    out = []
    for c in d["cases"]:
        r = dict(entry="iv:" + c["name"], viol=[], error=c["error"], obl={"piece of the input domain of " + c["fn"]: c["proved"] + len(c["refuted"])},
                 accesses=0, steps=c["steps"], funcs=["qlibs::" + c["fn"]], bdd=0, wall=c["wall"], undecided=c["open"], at=c.get("open_at"))
        for f in c["refuted"]:
            r["viol"].append(dict(kind="numeric range", loc=src_line(c["fn"].split("__")[0]), cond="inputs in " + str(f["inputs"]), trace=[c["fn"]],
                                  msg="%s: for inputs in %s the result lies in [%s, %s]%s%s, outside what %s requires" % (
                                      c["fn"], f["inputs"], f["result"][0], f["result"][1], " or is NaN" if f["nan"] else "",
                                      " after undefined behaviour (%s)" % ", ".join(f["ub"]) if f["ub"] else "", c["what"])))
        out.append(r)
    bad = [r for r in out if r["error"]]
    if bad and len(bad) < len(out):          # a piece the abstraction cannot follow is undecided, not an alarm
        for r in bad:
            r["undecided"], r["at"], r["error"] = 1, "(not followed: %s)" % r["error"], None
    return out


IVEXP = ("Numeric functions: abstract interpretation of the same IR over floating-point intervals with a linear (affine) part, on pieces that "
         "cover the stated input domain; a piece is discharged when the abstract result lies within the tolerance of the reference on the "
         "whole piece, otherwise it is bisected. ")
_MOD = None


def _child(a):
    return run_entry((_MOD,) + a)


def degenerate(rs, tier, t0):
    """every entry again with one unknown real equal to zero or to another one: quotients that lose their meaning there"""
    jobs = []
    for r in rs:
        n = r.get("nreal", 0)
        if r["error"] or r["viol"] or r["wall"] * n > (60 if tier == "quick" else 1200):
            continue
        jobs += [(r["entry"], 30, False, (i, None)) for i in range(n)]
        jobs += [(r["entry"], 30, False, (i, j)) for i in range(n) for j in (range(i) if n <= 8 else range(i - 1, i)) if j >= 0]
    if not jobs:
        return []
    end = t0 + (300 if tier == "quick" else 3000)
    by = {}
    with mp.get_context("fork").Pool(min(8, len(jobs))) as pool:
        for j, z in zip(jobs, pool.imap(_degenerate, [j + (end,) for j in jobs], chunksize=4)):
            a = by.setdefault(j[0], dict(entry=j[0] + "/degenerate", viol=[], error=None, obl={}, accesses=0, steps=0, funcs=[], bdd=0, wall=0, undecided=0, runs=0))
            if z is None or z["error"]:
                continue        # the degenerate case is excluded by an assumption of the entry, or out of time
            a["runs"] += 1
            for k, v in z["obl"].items():
                a["obl"][k] = a["obl"].get(k, 0) + v
            for k in ("accesses", "steps", "bdd", "wall"):
                a[k] += z[k]
            for v in z["viol"][:2]:
                v = dict(v)
                i, o = j[3]
                v["msg"] += " (with unknown number %d of the entry %s)" % (i + 1, "equal to zero" if o is None else "equal to number %d" % (o + 1))
                a["viol"].append(v)
    return [a for a in by.values() if a["obl"] or a["viol"]]


def _degenerate(a):
    return None if time.time() > a[-1] else run_entry((_MOD,) + a[:-1])


def known():
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("known:"):
                d = json.loads(l[len("known:"):])
                out.append(d)
    return out


def main():
    global _MOD
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    P = PROPS[pid]
    t0 = time.time()
    errors, viols, results, extra = [], [], [], {}
    nentries = 0
    try:
        for unit in P.get("units", []):
            mod = irparse.Module(build.module_text(unit["harness"], unit.get("defines", ()), flags=unit.get("flags", ())))
            deep = tier == "thorough"
            names = sorted(f for f in mod.funcs if f.startswith(("H_", "HT_") if deep else "H_") and not mod.funcs[f].is_decl and
                           any(fnmatch.fnmatch(f, p) for p in unit["entries"]))
            for p in unit["entries"]:
                if not any(fnmatch.fnmatch(f, p) for f in names) and (deep or not p.startswith("HT_")):
                    errors.append("no harness entry matches %s" % p)
            nentries += len(names)
            _MOD = mod
            tmo = ("until", t0 + 600) if tier == "quick" else 3000
            if os.environ.get("VF_SERIAL"):
                rs = [_child((n, tmo, deep)) for n in names]
            else:
                with mp.get_context("fork").Pool(min(8, max(1, len(names))), maxtasksperchild=1) as pool:
                    rs = pool.map(_child, [(n, tmo, deep) for n in names], chunksize=1)
            results += rs
            if unit.get("degenerate", True) and (tier == "thorough" or time.time() - t0 < 200):
                zs = degenerate(rs, tier, t0)
                results += zs
        if tier == "quick":
            os.environ["VF_IV_END"] = str(t0 + 780)
        for unit in P.get("iv", []):
            rs = run_iv(unit, tier)
            nentries += len(rs)
            results += rs
            und = [(r["entry"], r["undecided"], r["at"]) for r in rs if r.get("undecided")]
            if und:
                extra["undecided pieces"] = extra.get("undecided pieces", []) + und
        for rule in P.get("rules", []):
            r = effects.RULES[rule]()
            extra[rule] = r["coverage"]
            errors += r.get("errors", [])
            viols += r["viol"]
            results.append(dict(entry="rule:" + rule, viol=[], error=None, obl={rule: r["obligations"]}, accesses=0,
                                steps=0, funcs=r.get("funcs", []), bdd=0, wall=0))
    except build.InterfaceError as x:
        e = [l.strip() for l in str(x).splitlines() if " error: " in l] or [str(x)[-300:]]
        loc = next((l for l in e if l.startswith(build.REPO)), e[0])
        return finish(pid, P, tier, t0, results, [dict(kind="interface", loc=loc.split(" error: ")[0].rstrip(": "), entry="compile", cond="always", trace=[],
                      msg="the library compiles but a program that uses its documented interface does not: " + loc)], [], extra)
    except build.BuildError as x:
        print("ANALYSIS-BROKEN: the current tree does not build with the harness:\n%s" % x)
        return finish(pid, P, tier, t0, results, [], ["build"], extra)
    bad = [r for r in results if r["error"]]
    if bad and not errors and 2 * len(bad) < len(results):
        # an entry that the abstraction cannot follow (an unmodelled construct, the time limit) decides nothing either way
        for r in bad:
            extra["undecided entries"] = extra.get("undecided entries", []) + [[r["entry"], r["error"]]]
            print("UNDECIDED: %s: %s" % (r["entry"], r["error"]))
            r["undecided"], r["error"] = 1, None
    for r in results:
        if r["error"]:
            errors.append("%s: %s" % (r["entry"], r["error"]))
        nobl = sum(r["obl"].values())
        if nobl == 0 and not r["error"] and not r["viol"] and not r.get("undecided"):
            errors.append("%s: no obligation was generated" % r["entry"])
        for v in r["viol"]:
            v = dict(v)
            v["entry"] = r["entry"]
            viols.append(v)
    tot = sum(sum(r["obl"].values()) for r in results)
    if extra.get("undecided pieces"):
        for e, n, at in extra["undecided pieces"][:10]:
            print("UNDECIDED: %s: %d pieces of the input domain, e.g. %s (no violation found on their corners)" % (e, n, at))
    elif not errors and not viols and not extra.get("undecided entries") and tot < P.get("min_obligations", 1):
        errors.append("only %d obligations generated, at least %d expected" % (tot, P["min_obligations"]))
    return finish(pid, P, tier, t0, results, viols, errors, extra)


def finish(pid, P, tier, t0, results, viols, errors, extra):
    kn = [k for k in known() if k["property"] == pid]
    new, old = [], []
    for v in viols:
        for k in kn:
            if k["entry"] == v.get("entry") and k["rule"] in v["msg"]:
                old.append((k, v))
                break
        else:
            new.append(v)
    funcs = sorted({f for r in results for f in r["funcs"]})
    obl = {}
    for r in results:
        for k, n in r["obl"].items():
            obl[k] = obl.get(k, 0) + n
    cov = dict(explanation="Static analysis of the LLVM IR compiled from the current sources: each harness entry is "
                           "evaluated once by a gated value-graph analysis (all control-flow joins merged, no path "
                           "enumeration, nothing executed); every obligation is an equality or predicate over the "
                           "resulting expressions that must hold for all values of the inputs. " + (IVEXP if P.get("iv") else "") + P.get("explain", ""),
               entries=len(results), obligations=sum(obl.values()),
               discharged=max(0, sum(obl.values()) - len(viols)),
               rules=[{"rule": k, "instances": n} for k, n in sorted(obl.items())][:60],
               functions_analysed=len(funcs), functions=funcs[:80],
               memory_accesses_checked=sum(r["accesses"] for r in results),
               ir_instructions_evaluated=sum(r["steps"] for r in results),
               decision_variables=sum(r["bdd"] for r in results),
               rule_reports=extra, errors=errors,
               findings=[{k: v.get(k) for k in ("entry", "kind", "loc", "msg", "trace")} for v in new][:20])
    ev = dict(property=pid, tier=tier, seed=int(os.environ.get("VERIF_SEED", "1") or 1), level=P.get("level", "other"),
              coverage=cov, assumptions=(ASSUME if P.get("units") or P.get("rules") else []) + (ASSUME_IV if P.get("iv") else []) + P.get("assume", []), wall_s=round(time.time() - t0, 2),
              violations=len(new))
    d = os.path.join(VERIF, "evidence")
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    seen = set()
    for k, v in old:
        if k["what"] not in seen:
            seen.add(k["what"])
            print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    print("%s: %d entries, %d obligations, %d functions of the library, %d memory accesses, %.1f s" % (
        pid, len(results), sum(obl.values()), len(funcs), cov["memory_accesses_checked"], time.time() - t0))
    if new:
        rp = os.path.join(d, "%s.violation.txt" % pid)
        with open(rp, "w") as f:
            for v in new:
                f.write("entry   %s\nkind    %s\nat      %s\nwhat    %s\nwhen    %s\nvia     %s\n\n" % (
                    v.get("entry"), v["kind"], v["loc"], v["msg"], v.get("cond"), " <- ".join(map(str, v.get("trace") or []))))
        for v in new[:12]:
            print("  [%s] %s (%s) %s via %s" % (v["kind"], v["loc"], v.get("entry"), v["msg"][:700],
                                                " <- ".join(map(str, (v.get("trace") or [])[:3]))))
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        return 1
    if errors:
        for x in errors[:20]:
            print("ANALYSIS-BROKEN: %s" % x)
        return 2
    return 0


if __name__ == "__main__":
    sys.exit(main())
