"""Interprocedural effect rules over the linked IR of the library (call graph, globals, allocations)."""
import os
import re

import build

TEMPLATES = ("mat.cpp", "algo.cpp", "smoother.cpp", "control.cpp", "pid.cpp", "interp1.cpp", "bits.cpp", "fis.cpp", "tdl.cpp")       # units that instantiate the header-only parts
FORBID = {
    "heap": r"^(malloc|calloc|realloc|free|aligned_alloc|posix_memalign|strdup|_Zn[wa][mj].*|_Zd[la]Pv.*)$",
    "exceptions": r"^(__cxa_throw|__cxa_allocate_exception|__cxa_rethrow|_ZSt\d+__throw_\w+|_Unwind_\w+)$",
    "input/output": r"^(printf|fprintf|sprintf|snprintf|vprintf|puts|putchar|putc|fputs|fputc|fwrite|fread|fopen|fclose|open|close|read|write|scanf|fscanf|"
                    r"perror|_ZNSo.*|_ZStls.*|_ZNSt\w*stream.*)$",
    "process control": r"^(exit|_exit|abort|quick_exit|signal|raise|kill|system|fork|exec\w*|longjmp|_longjmp|siglongjmp|setjmp|_setjmp|atexit|__assert_fail)$",
    "clock, randomness, threads": r"^(time|clock|clock_gettime|gettimeofday|rand|srand|random|srandom|drand48|pthread_\w+|nanosleep|usleep|sleep|getenv|setenv|setlocale)$",
}


class Fn:
    __slots__ = ("name", "file", "line", "blocks", "lib", "params", "addr")


def load(units, extra=()):
    """parse the linked IR into functions (blocks of lines), globals and debug locations"""
    txt = build.module_text(units, flags=("-fexceptions",) + tuple(extra))
    meta = {}
    for m in re.finditer(r"^!(\d+) = (.*)$", txt, flags=re.M):
        meta[m.group(1)] = m.group(2)

    def fileof(i):
        d = meta.get(i, "")
        m = re.search(r'DIFile\(filename: "([^"]*)", directory: "([^"]*)"', d)
        return os.path.normpath(os.path.join(m.group(2), m.group(1))) if m else ""
    globs = {}
    for m in re.finditer(r"^@([\w.$]+|\"[^\"]+\") = (.*)$", txt, flags=re.M):
        d = m.group(2)
        k = "const" if re.search(r"\bconstant\b", d.split("!dbg")[0].split("{")[0].split("[")[0]) else "var" if re.search(r"\bglobal\b", d) else "other"
        loc = None
        g = re.search(r"!dbg !(\d+)", d)
        if g:
            e = re.search(r"var: !(\d+)", meta.get(g.group(1), ""))
            v = meta.get(e.group(1), "") if e else ""
            f = re.search(r"file: !(\d+), line: (\d+)", v)
            if f:
                loc = (fileof(f.group(1)), int(f.group(2)))
        globs[m.group(1)] = (k, d, loc)
    fns = {}
    for m in re.finditer(r"^define ([^\n]*?)@([\w.$]+|\"[^\"]+\")\(([^\n]*)\{\n(.*?)^\}", txt, flags=re.M | re.S):
        f = Fn()
        f.name = m.group(2)
        g = re.search(r"!dbg !(\d+)", m.group(3))
        f.file, f.line = "", 0
        if g:
            s = meta.get(g.group(1), "")
            e = re.search(r"file: !(\d+)", s)
            f.file = fileof(e.group(1)) if e else ""
            e = re.search(r"\bline: (\d+)", s)
            f.line = int(e.group(1)) if e else 0
        f.lib = f.file.startswith(os.path.join(build.REPO, "src") + "/")
        # parameters of the definition, by position
        hdr = m.group(3)
        depth, cur, parts = 0, "", []
        for c in hdr:
            if c in "([{<":
                depth += 1
            if c in ")]}>":
                if depth == 0:
                    break
                depth -= 1
            if c == "," and depth == 0:
                parts.append(cur)
                cur = ""
            else:
                cur += c
        parts.append(cur)
        f.params = [(re.findall(r"%[\w.]+", p) or [None])[-1] for p in parts]
        f.blocks, b = {}, "entry"
        f.blocks[b] = []
        for l in m.group(4).split("\n"):
            t = re.match(r"^([\w.$]+):", l)
            if t:
                b = t.group(1)
                f.blocks[b] = []
            elif l.strip() and not l.strip().startswith((";", "#dbg")):
                f.blocks[b].append(l.strip())
        fns[f.name] = f

    def loc(fn, line):
        g = re.search(r"!dbg !(\d+)", line)
        if g:
            s = meta.get(g.group(1), "")
            e = re.search(r"line: (\d+)", s)
            if e:
                return "%s:%s" % (os.path.relpath(fn.file, build.REPO) if fn.file else "?", e.group(1))
        return "%s:%d" % (os.path.relpath(fn.file, build.REPO) if fn.file else "?", fn.line)
    return fns, globs, loc


CALL = re.compile(r"\b(?:call|invoke)\b[^@%]*?(?:@([\w.$]+|\"[^\"]+\")|(%[\w.]+))\(")


def calls(fn):
    for b in fn.blocks.values():
        for l in b:
            if re.search(r"(^|= |tail |notail |musttail )(call|invoke) ", l):
                m = CALL.search(l)
                if m:
                    yield m.group(1), l


def addressed(fns, globs):
    """functions whose address is taken (vtables, tables of function pointers, arguments): targets of indirect calls"""
    out = set()
    for k, d, _ in globs.values():
        for n in re.findall(r"@([\w.$]+)", d):
            if n in fns:
                out.add(n)
    for f in fns.values():
        for b in f.blocks.values():
            for l in b:
                m = CALL.search(l) if " call " in " " + l or "invoke" in l else None
                body = l.split(", !dbg")[0]
                for n in re.findall(r"@([\w.$]+)", body):
                    if n in fns and not (m and m.group(1) == n and body.count("@" + n) == 1):
                        out.add(n)
    return out


def dtor0(n):
    return re.search(r"D0Ev$", n) is not None


def sig(line):
    """number of arguments of a call, as a coarse type for indirect calls"""
    i = line.index("(", CALL.search(line).start(2) if CALL.search(line).group(2) else 0)
    d, n, any_ = 0, 1, False
    for c in line[i + 1:]:
        if c == ")" and d == 0:
            break
        if c in "([{<":
            d += 1
        elif c in ")]}>":
            d -= 1
        elif c == "," and d == 0:
            n += 1
        if not c.isspace():
            any_ = True
    return n if any_ else 0


def nparams(fn):
    return 0 if fn.params in ([None], []) else len(fn.params)


def viol(kind, loc, msg, trace=()):
    return dict(kind=kind, loc=loc, msg=msg, trace=list(trace), cond="always")


def demangle(n):
    import subprocess
    p = subprocess.run(["c++filt", n], stdout=subprocess.PIPE, text=True)
    return p.stdout.strip() or n


def selftest(rule, text):
    """the rule must fire on a known bad program: guards against a rule that silently matches nothing"""
    import tempfile
    import shutil
    d = tempfile.mkdtemp(prefix="qv_")
    try:
        os.makedirs(d + "/src/include")
        for i in range(10):
            open(d + "/src/f%d.cpp" % i, "w").write("\n")
        open(d + "/src/bad.cpp", "w").write(text)
        old = build.REPO
        build.REPO = d
        try:
            key = dict(build._cache)
            build._cache.clear()
            r = rule(selftesting=True)
        finally:
            build.REPO = old
            build._cache.clear()
            build._cache.update(key)
        return len(r["viol"])
    finally:
        shutil.rmtree(d, ignore_errors=True)


# ------------------------------------------------------------------------------------------------------------- rules
def no_forbidden(selftesting=False):
    out, n, seen, ext = [], 0, set(), {}
    for u in ((),) if selftesting else ((),) + tuple((t,) for t in TEMPLATES):
        fns, globs, loc = load(u)
        for f in fns.values():
            if not f.lib or dtor0(f.name):
                continue
            for c, l in calls(f):
                n += 1
                if c is None or c in fns:
                    continue
                for kind, pat in FORBID.items():
                    if re.match(pat, c):
                        k = (f.name, c)
                        if k not in seen:
                            seen.add(k)
                            out.append(viol("forbidden effect", loc(f, l), "%s: %s calls %s" % (kind, demangle(f.name), demangle(c)), [demangle(f.name)]))
                        break
                else:
                    if not c.startswith("llvm."):
                        ext[c] = ext.get(c, 0) + 1
            seen.add(f.name)
    return dict(viol=out, obligations=n, funcs=sorted(x for x in seen if isinstance(x, str)),
                coverage=dict(call_sites=n, functions=len([x for x in seen if isinstance(x, str)]), other_external_callees=ext, forbidden=list(FORBID)))


def writes_through(fns, fname, idx, memo):
    """may function fname write through (or leak) its idx-th parameter?  -> None or a reason"""
    k = (fname, idx)
    if k in memo:
        return memo[k]
    memo[k] = None
    f = fns[fname]
    if idx >= len(f.params) or f.params[idx] is None:
        return None
    memo[k] = flow(fns, f, {f.params[idx]}, memo)
    return memo[k]


def argpos(line, name):
    m = CALL.search(line)
    i = line.index("(", m.end() - 1)
    d, cur, pos, hit = 0, "", 0, []
    for c in line[i + 1:]:
        if (c == "," and d == 0) or (c == ")" and d == 0):
            if re.search(re.escape(name) + r"(?![\w.])", cur):
                hit.append(pos)
            pos += 1
            cur = ""
            if c == ")":
                break
            continue
        if c in "([{<":
            d += 1
        elif c in ")]}>":
            d -= 1
        cur += c
    return hit


def flow(fns, f, names, memo, lines=None, skip=None):
    """follow an address through function f; -> (line, reason) of the first possible write or leak"""
    names = set(names)
    changed = True
    body = [(b, l) for b, ls in f.blocks.items() for l in ls]
    while changed:
        changed = False
        for b, l in body:
            core = l.split(", !dbg")[0]
            used = [x for x in names if re.search(re.escape(x) + r"(?![\w.])", core.split(" = ", 1)[-1])]
            if not used:
                continue
            dst = core.split(" = ", 1)[0] if " = " in core else None
            rhs = core.split(" = ", 1)[-1]
            op = rhs.split()[0]
            if op in ("getelementptr", "bitcast", "phi", "select", "addrspacecast", "freeze", "insertvalue", "extractvalue"):
                if dst not in names:
                    names.add(dst)
                    changed = True
            elif op in ("load", "icmp", "ret", "br", "switch", "ptrtoint", "unreachable"):
                if op == "ret":
                    return l, "returns its address"
            elif op == "store":
                v, p = rhs[len("store "):].split(", ptr ", 1) if ", ptr " in rhs else (rhs, rhs)
                if any(re.search(re.escape(x) + r"(?![\w.])", p) for x in used):
                    if skip and skip(b, l):
                        continue
                    return l, "writes it"
                return l, "stores its address"
            elif op in ("call", "tail", "invoke", "notail", "musttail"):
                m = CALL.search(core)
                c = m.group(1) if m else None
                for x in used:
                    for pos in argpos(core, x):
                        if c and c.startswith("llvm.dbg"):
                            continue
                        if c and re.match(r"llvm\.mem(cpy|move)|llvm\.mem(cpy|move)\.inline|mem(cpy|move)$", c):
                            if pos == 0:
                                return l, "writes it"
                            continue
                        if c and re.match(r"llvm\.memset|memset$", c):
                            return l, "writes it"
                        if c in fns:
                            r = writes_through(fns, c, pos, memo)
                            if r:
                                return l, "passes it to %s, which %s" % (demangle(c), r[1])
                        elif c is None:
                            return l, "passes it to an indirect call"
                        elif not c.startswith("llvm."):
                            if not re.match(r"(strlen|strcmp|memcmp|isnan|isinf)", c):
                                return l, "passes it to %s" % c
            elif op in ("atomicrmw", "cmpxchg"):
                return l, "writes it"
    return None


def no_shared_state(selftesting=False):
    out, n, seen, inv = [], 0, set(), {}
    for u in ((),) if selftesting else ((),) + tuple((t,) for t in TEMPLATES):
        fns, globs, loc = load(u)
        memo = {}
        for g, (k, d, gl) in globs.items():
            if k != "var" or g.startswith(("llvm.", "\"")) or g.startswith("_ZGV") or re.match(r"__", g):
                continue
            if gl is None or not gl[0].startswith(os.path.join(build.REPO, "src") + "/"):
                continue
            users = [f for f in fns.values() if any(re.search("@" + re.escape(g) + r"(?![\w.$])", l) for b in f.blocks.values() for l in b)]
            inv[g] = dict(at="%s:%d" % (os.path.relpath(gl[0], build.REPO), gl[1]), readers=len(users))
            for f in users:
                n += 1
                if re.match(r"(__cxx_global_var_init|_GLOBAL__sub_I)", f.name):
                    continue

                def init_store(b, l, g=g, f=f):
                    return any(("@_ZGV" in x and g[2:] in x and x.startswith("store ")) for x in f.blocks[b])
                r = flow(fns, f, {"@" + g}, memo, skip=init_store)
                if r and (f.name, g) not in seen:
                    seen.add((f.name, g))
                    out.append(viol("shared state", loc(f, r[0]), "%s %s: the mutable object %s of static duration (%s) is shared by every instance and caller" % (
                        demangle(f.name), r[1], demangle(g), inv[g]["at"]), [demangle(f.name)]))
        n += len([f for f in fns.values() if f.lib])
        seen |= {f.name for f in fns.values() if f.lib}
    return dict(viol=out, obligations=n, funcs=sorted(x for x in seen if isinstance(x, str)),
                coverage=dict(static_objects_not_constant=inv, uses_followed=n, functions=len([x for x in seen if isinstance(x, str)])))


def bounded_stack(selftesting=False):
    out, n, seen = [], 0, set()
    for u in ((),) if selftesting else ((),) + tuple((t,) for t in TEMPLATES):
        fns, globs, loc = load(u)
        lib = {f.name: f for f in fns.values() if f.lib}
        edges = {}
        for f in lib.values():
            e = edges.setdefault(f.name, {})
            for c, l in calls(f):
                n += 1
                if c in lib:
                    e.setdefault(c, l)
            for b in f.blocks.values():
                for l in b:
                    m = re.search(r"= alloca ([^,]+), (i\d+) (%[\w.]+)", l)
                    if m and (f.name, "alloca") not in seen:
                        seen.add((f.name, "alloca"))
                        out.append(viol("unbounded stack", loc(f, l), "%s allocates a run-time amount of stack" % demangle(f.name), [demangle(f.name)]))
        # strongly connected components (iterative Tarjan) of the direct call graph
        idx, low, on, st, cnt = {}, {}, set(), [], [0]

        def strong(v0):
            work = [(v0, iter(edges.get(v0, {})))]
            idx[v0] = low[v0] = cnt[0]
            cnt[0] += 1
            st.append(v0)
            on.add(v0)
            while work:
                v, it = work[-1]
                for w in it:
                    if w not in idx:
                        idx[w] = low[w] = cnt[0]
                        cnt[0] += 1
                        st.append(w)
                        on.add(w)
                        work.append((w, iter(edges.get(w, {}))))
                        break
                    if w in on:
                        low[v] = min(low[v], idx[w])
                else:
                    work.pop()
                    if work:
                        low[work[-1][0]] = min(low[work[-1][0]], low[v])
                    if low[v] == idx[v]:
                        comp = []
                        while True:
                            w = st.pop()
                            on.discard(w)
                            comp.append(w)
                            if w == v:
                                break
                        if len(comp) > 1 or v in edges.get(v, {}):
                            comps.append(comp)
        comps = []
        for v in sorted(edges):
            if v not in idx:
                strong(v)
        for c in comps:
            k = tuple(sorted(c))
            if k in seen:
                continue
            seen.add(k)
            v = sorted(c)[0]
            w = next(x for x in edges[v] if x in c)
            out.append(viol("recursion", loc(lib[v], edges[v][w]), "recursive call cycle: " + " -> ".join(demangle(x) for x in sorted(c)), [demangle(x) for x in c]))
        seen |= set(lib)
    return dict(viol=out, obligations=n, funcs=sorted(x for x in seen if isinstance(x, str)),
                coverage=dict(call_edges=n, functions=len([x for x in seen if isinstance(x, str)])))


BAD = {
    "no-forbidden-effect": ("#include <cstdlib>\n#include <cstdio>\nnamespace qlibs { float *a( int n ) { return new float[ n ]; } void b() { std::puts( \"x\" ); } "
                            "void c( int x ) { if ( x ) throw 1; } void *d() { return std::malloc( 4 ); } void e() { std::abort(); } int f() { return std::rand(); } }\n", 7),
    "no-shared-state": ("namespace qlibs { static float acc = 0.0F; float a( float x ) { acc += x; return acc; } float b( float x ) { static float last = 0.0F; const float r = x - last; last = x; return r; } "
                        "static void w( float *p ) { p[ 1 ] = 2.0F; } static float buf[ 3 ]; float c( int i ) { w( buf ); return buf[ i ]; } float *d() { static float s; return &s; } "
                        "float e( float x ) { static const float k = x; static float tab[ 2 ] = { 1.0F, 2.0F }; return k + tab[ 0 ]; } }\n", 4),
    "bounded-stack": ("namespace qlibs { int o( int ); int e( int n ) { return n ? o( n - 1 ) : 1; } int o( int n ) { return n ? e( n - 1 ) : 0; } int f( int n ) { return n < 2 ? 1 : n*f( n - 1 ); } "
                      "int g( int n ) { int v[ n ]; v[ 0 ] = n; return v[ n - 1 ]; } int ok( int n ) { int v[ 4 ]; v[ 0 ] = n; return v[ 0 ]; } }\n", 3),
}


def checked(name, rule):
    def run():
        text, want = BAD[name]
        got = selftest(rule, text)
        r = rule()
        r["coverage"]["positive_examples"] = "%d of %d constructs of a known bad program reported" % (got, want)
        if got != want:
            r["errors"] = ["rule %s reports %d of %d constructs of its positive example" % (name, got, want)]
        return r
    return run


RULES = {k: checked(k, v) for k, v in (("no-forbidden-effect", no_forbidden), ("no-shared-state", no_shared_state), ("bounded-stack", bounded_stack))}
