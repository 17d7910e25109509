#!/usr/bin/env python3
"""Runs the interval/affine analysis on a list of cases (see ivcases.py); prints one JSON document.

usage: python3-vt ivrun.py <group> <quick|thorough>"""
import json
import multiprocessing as mp
import os
import re
import shutil
import sys
import tempfile
import time
import warnings

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import numpy as np        # noqa: E402
import build              # noqa: E402
import irparse            # noqa: E402
import interval as iv     # noqa: E402
import ivcases            # noqa: E402

np.seterr(all="ignore")
warnings.filterwarnings("ignore")
CHUNK = 8192


FX = {"_ZN5qlibs4fp163mulEii": ("fxmul",), "_ZN5qlibs4fp163divEii": ("fxdiv",), "_ZN5qlibs4fp164sqrtEi": ("fxsqrt", 1.0)}
MODULAR = {"fx": FX, "fxe": dict(FX, **{"_ZN5qlibs4fp163expEi": ("fxexp", 2.5, 5e-5)}), "spec": {"_ZN5qlibs6ffmath4sqrtEf": ("msqrt", 3e-6), "_ZN5qlibs6ffmath5rSqrtEf": ("mrsqrt", 2e-3)}}
MODULAR["cfrac"] = MODULAR["spec"]


def module_text():
    d = tempfile.mkdtemp(prefix="qv_")
    try:
        out = []
        for i, s in enumerate([build.REPO + "/src/ffmath.cpp", build.REPO + "/src/fp16.cpp",
                               os.path.join(build.VERIF, "harness", "iv.cpp")]):
            o = os.path.join(d, "%d.bc" % i)
            build._run(["clang++-18", "-std=c++11", "-O1", "-Xclang", "-disable-llvm-passes", "-Xclang", "-disable-lifetime-markers", "-ffp-contract=off",
                        "-fno-exceptions", "-fno-rtti", "-Wno-everything", "-fno-threadsafe-statics",
                        "-I" + build.REPO + "/src", "-I" + build.REPO + "/src/include", "-c", "-emit-llvm", s, "-o", o])
            out.append(o)
        build._run([build.LLVM + "llvm-link", "-S"] + out + ["-o", d + "/a.ll"])
        with open(d + "/a.ll") as f:
            t = f.read()
        def mark(m):
            n = re.search(r"@([\w.$]+)\(", m.group(1))
            if n and n.group(1) in iv.SUMMARY:
                return m.group(0)
            return "%s alwaysinline %s%s" % m.groups()
        t = re.sub(r"^(define [^\n]*?\)[^\n]*?) (#\d+)([^\n]*\{)$", mark, t, flags=re.M)
        with open(d + "/b.ll", "w") as f:
            f.write(t)
        build._run([build.LLVM + "opt", "-S", "-passes=always-inline,function(sroa,instsimplify,sroa,adce,"
                    "loop-simplify,lcssa),globaldce", d + "/b.ll", "-o", d + "/c.ll"])
        with open(d + "/c.ll") as f:
            return f.read()
    finally:
        shutil.rmtree(d, ignore_errors=True)


# ------------------------------------------------------------------ pieces of the input domain
def grid(spec):
    k = spec[0]
    if k == "lin":
        _, lo, hi, n = spec
        e = np.unique(iv.f32(np.linspace(lo, hi, n + 1)))
        return e[:-1], e[1:]
    if k == "bits":
        _, lo, hi, n = spec
        if lo == 0 or hi == 0:
            raise ValueError(spec)
        a, b = iv.fbits(np.array([lo, hi]))
        e = np.unique(np.linspace(float(a), float(b), n + 1).astype(np.int64))
        e = np.unique(np.concatenate([e, [k for k in range(min(a, b) >> 23, (max(a, b) >> 23) + 1) for k in [k << 23]
                                          if min(a, b) < k < max(a, b)]]).astype(np.int64))
        if a < b and lo > 0:
            return iv.bfloat(e[:-1]), iv.bfloat(e[1:])
        return iv.bfloat(e[1:]), iv.bfloat(e[:-1])          # negative values: larger bits are smaller
    if k == "pts":
        p = np.array(spec[1], float)
        return p, p
    if k == "nan":
        return np.array([np.inf]), np.array([-np.inf])
    if k == "int":
        _, lo, hi, n = spec
        e = np.unique(np.linspace(lo, hi + 1, n + 1).astype(np.int64))
        return e[:-1], e[1:] - 1
    raise ValueError(spec)


def boxes(specs):
    axes = [grid(s) for s in specs]
    idx = np.meshgrid(*[np.arange(len(a[0])) for a in axes], indexing="ij")
    idx = [i.ravel() for i in idx]
    return [a[0][i] for a, i in zip(axes, idx)], [a[1][i] for a, i in zip(axes, idx)]


def inputs(D, lo, hi, kinds):
    args = []
    K = D.K
    nk = 0
    n = len(lo[0]) if lo else 1
    for l, h, kd in zip(lo, hi, kinds):
        if kd[0] == "const":
            args.append(D.iconst(kd[1], kd[2]) if len(kd) > 2 else D.fconst(kd[1]))
            continue
        b = [np.zeros(1)] * K
        if kd[0] == "int":
            a, r = 0.5 * (l.astype(float) + h), 0.5 * (h.astype(float) - l)
            b = list(b)
            b[nk] = r
            nk += 1
            args.append(D.mki(kd[4] if len(kd) > 4 else 32, l, h, a, b, np.zeros(n)))
            continue
        emp = l > h
        fin = np.isfinite(l) & np.isfinite(h)
        a = np.where(fin, 0.5 * (l + h), 0.0)
        r = np.where(fin, 0.5 * (h - l), 0.0)
        b = list(b)
        b[nk] = r
        nk += 1
        neg0 = (l == 0) & (h == 0) & np.signbit(l)
        nz = ~((l <= 0) & (h >= 0)) | ((l == 0) & ~np.signbit(l))
        v = D.mkf(l, h, emp, nz & ~neg0, a, b, np.where(fin, 0.0, np.inf), neg0)
        if kd[0] == "nan":
            v.ns = np.array([kd[1]])
        args.append(v)
    return args


def reference(case, lo, hi, nd):
    """affine enclosure (centre, slopes, error) and range of the reference on each box"""
    K = nd
    per = {1: 9, 2: 5, 3: 3}[K]
    t = np.linspace(-1, 1, per)
    pts = np.stack(np.meshgrid(*([t] * K), indexing="ij")).reshape(K, -1)
    mid = [0.5 * (l.astype(float) + h) for l, h in zip(lo, hi)]
    rad = [0.5 * (h.astype(float) - l) for l, h in zip(lo, hi)]
    vals = []
    for j in range(pts.shape[1]):
        vals.append(np.asarray(case["ref"](*[m + r * pts[k, j] for k, (m, r) in enumerate(zip(mid, rad))]), float))
    F = np.stack(vals)                                   # samples x lanes
    ends = [(pts[k] == 1, pts[k] == -1) for k in range(K)]
    sl = [0.5 * (F[p].mean(axis=0) - F[m].mean(axis=0)) for p, m in ends]
    lin = sum(np.outer(pts[k], sl[k]) for k in range(K))
    dev = F - lin
    c = 0.5 * (dev.max(axis=0) + dev.min(axis=0))
    e = 0.5 * (dev.max(axis=0) - dev.min(axis=0)) * 1.4 + 1e-13 * np.abs(F).max(axis=0)
    return c, sl, e, F


def judge(case, R, lo, hi, nd, ub):
    """-> (proved, refuted) masks"""
    n = len(lo[0]) if nd else 1
    full = np.zeros(n, bool)
    rlo, rhi, nan = R.lo + 0 * full, R.hi + 0 * full, (R.nan | full) if R.nan is not None else full
    emp = rlo > rhi
    kind = case["check"]
    ptl = np.ones(n, bool)
    for l, h in zip(lo, hi):
        ptl &= l == h
    if kind == "nan":
        ok, bad = emp, ~nan & ~emp
    elif kind == "eq":
        v = case["value"]
        ok = ~nan & (rlo == v) & (rhi == v)
        bad = emp | (rlo > v) | (rhi < v)
    elif kind == "zero":            # a zero of either sign
        ok = ~nan & (rlo == 0) & (rhi == 0)
        bad = emp | (rlo > 0) | (rhi < 0)
    elif kind == "range":
        l, h = case["range"]
        ok = ~nan & (rlo >= l) & (rhi <= h)
        bad = emp | (rhi < l) | (rlo > h)
    elif kind == "range_or_nan":
        l, h = case["range"]
        ok = emp | ((rlo >= l) & (rhi <= h))
        bad = ~nan & ((rhi < l) | (rlo > h))
    elif kind in ("approx", "cong"):
        K = len(R.b)
        if kind == "approx":
            c, sl, e, F = reference(case, lo, hi, nd)
            fmin, fmax = np.abs(F).min(axis=0), np.abs(F).max(axis=0)
            same = (F.max(axis=0) > 0) == (F.min(axis=0) > 0)
            fmin = np.where(same, np.maximum(0, fmin - e), 0.0)
            tol = case.get("abs", 0.0) + case.get("rel", 0.0) * fmin
            tolmax = case.get("abs", 0.0) + case.get("rel", 0.0) * (fmax + e)
            Fl, Fh = F.min(axis=0) - e, F.max(axis=0) + e
        else:
            # R - x must be a multiple of the modulus
            M = case["mod"]
            mid = 0.5 * (lo[0] + hi[0])
            rad = 0.5 * (hi[0] - lo[0])
            kk = np.round((R.a - mid) / M)
            c, sl, e = mid + kk * M, [rad] + [np.zeros(1)] * (K - 1), np.zeros(n)
            tol = tolmax = case["abs"] + case.get("rel", 0.0) * np.maximum(np.abs(lo[0]), np.abs(hi[0]))
            Fl = Fh = None
        d = R.e + e
        for p, q in zip(R.b, list(sl) + [0.0] * (K - len(sl))):
            d = d + np.abs(p - q)
        up = np.abs(R.a - c) + d
        if Fl is not None:
            up = np.minimum(up, np.maximum(np.abs(rhi - Fl), np.abs(Fh - rlo)))
        if kind == "cong":
            l, h = case["range"]
            inr = (rlo >= l) & (rhi <= h)
        else:
            inr = True
        ok = ~nan & (up <= tol) & np.isfinite(rlo) & np.isfinite(rhi) & inr
        low = np.abs(R.a - c) - d
        bad = emp | (np.isfinite(R.e) & (low > tolmax))
        if Fl is not None:
            bad |= (rlo > Fh + tolmax) | (rhi < Fl - tolmax)
            bad |= np.isinf(rlo) & (rlo == rhi)
        else:
            bad |= (rhi < case["range"][0]) | (rlo > case["range"][1]) | (ptl & ~ok)
        bad &= ~ok
    else:
        raise ValueError(kind)
    u = full if ub is None else (ub | full)
    bad = (bad & ~ok) | (u & ptl) | (ptl & ~ok & (kind != "approx"))
    return ok & ~u, bad


def split(lo, hi, R, axes):
    """bisect every box along the input that contributes most to the width of the result"""
    nd = len(lo)
    n = len(lo[0])
    w = []
    for k in range(nd):
        wid = np.abs(hi[k].astype(float) - lo[k])
        rel = wid / (np.maximum(np.abs(lo[k]), np.abs(hi[k])) + 1e-30)
        w.append(np.where(hi[k] > lo[k], rel, -1.0))
    if nd > 1 and R is not None:
        fin = np.isfinite(R.e + np.zeros(n)) & (sum(np.abs(p) for p in R.b) + np.zeros(n) > 0)
        for k in range(nd):
            w[k] = np.where(fin & (hi[k] > lo[k]), np.abs(R.b[k] + np.zeros(n)), w[k])
    ax = np.argmax(np.stack(w), axis=0)
    out_lo, out_hi = [], []
    l1, h1, l2, h2 = [], [], [], []
    for k in range(nd):
        l, h = lo[k], hi[k]
        if l.dtype.kind == "i":
            mid = (l + h) >> 1
            nxt = mid + 1
        else:
            mid = iv.f32(0.5 * (l + h))
            samesign = (l > 0) == (h > 0)
            big = samesign & (l != 0) & (h != 0) & (np.maximum(np.abs(l), np.abs(h)) > 2 * np.minimum(np.abs(l), np.abs(h)))
            bm = iv.bfloat((iv.fbits(l) + iv.fbits(h)) >> 1)
            mid = np.where(big, bm, mid)
            adj = (mid <= l) | (mid >= h)
            nxt = np.where(adj, h, mid)
            mid = np.where(adj, l, mid)
        s = (ax == k) & (h > l)
        l1.append(l)
        h1.append(np.where(s, mid, h))
        l2.append(np.where(s, nxt, l))
        h2.append(h)
    any_split = np.zeros(n, bool)
    for k in range(nd):
        any_split |= (ax == k) & (hi[k] > lo[k])
    for k in range(nd):
        out_lo.append(np.concatenate([l1[k][any_split], l2[k][any_split]]))
        out_hi.append(np.concatenate([h1[k][any_split], h2[k][any_split]]))
    return out_lo, out_hi, ~any_split


_MOD = None
_END = None            # the analysis of the cases of a property stops here; what is left then is undecided


def evaluate(case, L, H, nd, var, res):
    """one abstract evaluation of the function on a batch of boxes"""
    n = len(L[0])
    specs = case["dom"]
    D = iv.Dom(nd + case.get("extra", 0))
    D.spare = list(range(nd, D.K))
    D.mask = np.ones(n, bool)
    it = iv.Interp(_MOD, D, n, case.get("max_steps", 60000), case.get("widen"))
    it.deadline = _END
    # order of the noise symbols = order of the variable inputs
    args = []
    vi = 0
    allv = inputs(D, L, H, [specs[k] for k in var])
    for k, s in enumerate(specs):
        if s[0] == "const":
            args.append(D.iconst(s[1], s[2]) if len(s) > 2 else D.fconst(s[1]))
        else:
            args.append(allv[vi])
            vi += 1
    R = it.call("I_" + case["fn"], args, np.ones(n, bool))
    if case.get("signed"):
        R = D.signed(R)
    res["lanes"] += n
    res["steps"] += it.steps
    res["ub"] = sorted(set(res["ub"]) | set(D.ubwhat))
    ok, bad = judge(case, R, L, H, nd, D.ub)
    return ok, bad, R, D


def describe(case):
    k = case["check"]
    t = " + ".join((["%g" % case["abs"]] if "abs" in case else []) + (["%g relative" % case["rel"]] if "rel" in case else []))
    if k == "approx":
        return "the mathematical function within " + t
    if k == "cong":
        return "congruence modulo %g within %s and the range %s" % (case["mod"], t, case["range"])
    if k == "nan":
        return "a NaN result"
    if k == "eq":
        return "the exact value %r" % case["value"]
    if k == "zero":
        return "a zero result"
    return "the range %s" % (case.get("range"),)


def refute(res, bad, L, H, R, D):
    n = len(L[0])
    i = int(np.argmax(bad))
    z = np.zeros(n)
    res["refuted"].append(dict(
        inputs=[[repr(float(l[i])), repr(float(h[i]))] for l, h in zip(L, H)],
        result=[repr(float((R.lo + z)[i])), repr(float((R.hi + z)[i]))],
        nan=bool((R.nan | np.zeros(n, bool))[i]) if R.nan is not None else False,
        ub=sorted(D.ubwhat) if D.ub is not None and bool((D.ub | np.zeros(n, bool))[i]) else []))


def definite(case, l, h, nd, var, res):
    """the boxes l..h are undecided; a violation may still be definite on a small part of one of them, with the
    callees analysed in place instead of by their contracts"""
    if res["refuted"] or res.get("tried", 0) >= 4:
        return
    res["tried"] = res.get("tried", 0) + 1
    k = max(1, len(l[0]) // 512)
    l, h = [x[::k][:512] for x in l], [x[::k][:512] for x in h]
    saved = dict(iv.SUMMARY)
    iv.SUMMARY.clear()
    try:
        for low in (True, False):
            pl, ph = [], []
            for a, b in zip(l, h):
                if a.dtype.kind == "i":
                    w = np.maximum((b - a) >> 8, np.minimum(b - a, 1))
                    p, q = (a, a + w) if low else (b - w, b)
                else:
                    w = (b - a) / 256
                    p, q = (a, np.minimum(b, np.maximum(iv.f32(a + w), np.where(b > a, iv.up32(np.nextafter(a, np.inf)), a)))) if low else \
                           (np.maximum(a, np.minimum(iv.f32(b - w), np.where(b > a, iv.dn32(np.nextafter(b, -np.inf)), b))), b)
                pl.append(p)
                ph.append(q)
            ok, bad, R, D = evaluate(case, pl, ph, nd, var, res)
            if bad.any():
                refute(res, bad, pl, ph, R, D)
                return
    except (iv.Unsupported, iv.Budget):
        pass
    finally:
        iv.SUMMARY.update(saved)


def run_case(ci):
    case = ivcases.CASES[ci]
    t0 = time.time()
    tier = _TIER
    res = dict(name=case["name"], fn=case["fn"], lanes=0, pieces=0, proved=0, refuted=[], open=0, error=None, steps=0, ub=[], what=describe(case))
    try:
        specs = case["dom"]
        var = [k for k, s in enumerate(specs) if s[0] != "const"]
        nd = len(var)
        lo, hi = boxes([specs[k] for k in var])
        res["pieces"] = len(lo[0]) if nd else 1
        budget = case.get("budget", 400000) * (6 if tier == "thorough" else 1)
        stack = [(lo, hi)]
        kinds = specs
        tmax = case.get("time", 150) * (8 if tier == "thorough" else 1)
        while stack and not res["refuted"]:
            if _END is not None and time.time() > _END:
                raise iv.Budget("time limit")
            L, H = stack.pop()
            n = len(L[0])
            if n > CHUNK:
                stack.append(([x[CHUNK:] for x in L], [x[CHUNK:] for x in H]))
                L, H = [x[:CHUNK] for x in L], [x[:CHUNK] for x in H]
                n = CHUNK
            ok, bad, R, D = evaluate(case, L, H, nd, var, res)
            if bad.any():
                refute(res, bad, L, H, R, D)
                break
            res["proved"] += int(ok.sum())
            rest = ~ok
            if rest.any():
                RR = iv.V(R.w, None, None, None, None, None, [(p + np.zeros(n))[rest] for p in R.b], (R.e + np.zeros(n))[rest])
                l2, h2, stuck = split([x[rest] for x in L], [x[rest] for x in H], RR, None)
                left = []
                if stuck.any():
                    res["open"] += int(stuck.sum())
                    left.append(([x[rest][stuck] for x in L], [x[rest][stuck] for x in H]))
                if len(l2[0]):
                    if res["lanes"] + len(l2[0]) > budget or time.time() - t0 > tmax:
                        res["open"] += len(l2[0])
                        left.append((l2, h2))
                    else:
                        stack.append((l2, h2))
                for a, b in left:
                    res["open_at"] = [[repr(float(l[0])), repr(float(h[0]))] for l, h in zip(a, b)]
                    definite(case, a, b, nd, var, res)
    except (iv.Unsupported, iv.Budget) as x:
        res["error"] = "%s: %s" % (type(x).__name__, x)
    except Exception as x:      # noqa
        if os.environ.get("VF_DEBUG"):
            import traceback
            traceback.print_exc()
        res["error"] = "%s: %s" % (type(x).__name__, str(x)[:300])
    res["wall"] = round(time.time() - t0, 2)
    return res


def main():
    global _MOD, _TIER, _END
    if os.environ.get("VF_IV_END"):
        _END = float(os.environ["VF_IV_END"])
    group, _TIER = sys.argv[1], sys.argv[2]
    pat = sys.argv[3].split(",") if len(sys.argv) > 3 else None
    iv.SUMMARY.update(MODULAR.get(group, {}))
    try:
        txt = module_text()
        iv.FROZEN.update(iv.frozen(txt))
        _MOD = irparse.Module(txt)
    except build.BuildError as x:
        print(json.dumps(dict(build=str(x))))
        return
    sel = [i for i, c in enumerate(ivcases.CASES) if c["group"] == group and (_TIER == "thorough" or not c.get("thorough")) and
           (pat is None or any(p in c["name"] for p in pat))]
    sel.sort(key=lambda i: -ivcases.CASES[i].get("cost", 0))
    for i in sel:
        f = _MOD.funcs.get("I_" + ivcases.CASES[i]["fn"])
        if f and not f.is_decl:
            f.parse()
    if os.environ.get("VF_SERIAL"):
        rs = [run_case(i) for i in sel]
    else:
        with mp.get_context("fork").Pool(8, maxtasksperchild=1) as pool:
            rs = pool.map(run_case, sel, chunksize=1)
    print(json.dumps(dict(cases=rs)))


if __name__ == "__main__":
    os.environ.setdefault("OMP_NUM_THREADS", "1")
    main()
