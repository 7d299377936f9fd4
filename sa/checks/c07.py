"""Purity of assertions.  In the unoptimised IR every instruction of an assertion carries the assertion's source position.
Obligations there: a store goes only to a temporary of the assertion itself.  In the IR of every operation with everything
it calls inlined, the constructs an assertion executes in the functions it calls (stores, block writes, releases, opaque
calls) are found through their chain of call positions; by points-to analysis they may reach only temporaries of the
assertion.  Finally the two build modes are compared with assertions themselves blanked out: the token streams of the
headers must be equal, or else the effects (writes to memory, calls) of every function that differs."""
import api, ir, pts, os, re, difflib

TEMP = re.compile(r"(ref\.tmp|agg\.tmp|cleanup|tmp|undef\.agg|coerce|saved|cond-cleanup|exn\.slot|ehselector)[\w.]*$")


def run(ctx):
    ctx.level = "proof"
    ctx.rule("stores of an assertion reach its own temporaries only; callees of an assertion write nothing else; with assertions blanked, debug and release builds have the same tokens or the same effects")
    ctx.assume += ["library templates write only through their non-const arguments"]
    raw = ir.load(api.TU, ["^q_", "^i_", "^c_"], passes="", no_inline=True, flags=["-fno-discard-value-names"])
    n = st = 0
    for f in raw.funcs.values():
        S = sites(f)
        n += len(S)
        if not S: continue
        where = use(f, S)
        for i in f.insts():
            k = pos(f, i)
            if k not in S: continue
            if i["op"] == "store":
                st += 1
                b = root(f, i["ops"][1])
                if b is not None and b["op"] == "alloca" and (TEMP.match(b.get("nm", "")) or where.get(b["id"], set()) <= {k}): ctx.ok(); continue
                ctx.bad("%s: assertion writes %s" % (ir.short(f.name), b.get("nm") or "a variable" if b else "memory"), "%s: the assertion stores to %s" % (f.loc(i), "the variable " + b["nm"] if b and b.get("nm") else "memory outside it"))
            elif i["op"] in ("atomicrmw", "cmpxchg"): ctx.bad("%s: assertion writes memory" % ir.short(f.name), f.loc(i))
            elif i["op"] == "call" and (i.get("fn") or "").startswith(("llvm.mem",)) and not i["fn"].startswith("llvm.memcmp"):
                b = root(f, i["ops"][0])
                if b is not None and b["op"] == "alloca" and (TEMP.match(b.get("nm", "")) or where.get(b["id"], set()) <= {k}): ctx.ok()
                else: ctx.bad("%s: assertion writes memory" % ir.short(f.name), "%s: the assertion copies into memory outside it" % f.loc(i))
    ctx.need(n, 10, "assertions"); ctx.cover["stores in assertions"] = st
    inside(ctx, raw)
    builds(ctx)


def sites(f):
    return {pos(f, i) for i in f.insts() if i["op"] in ("call", "invoke") and i.get("fn") == "__assert_fail" and "dl" in i}


def pos(f, i):
    n = i.get("dl")
    if n is None: return None
    l = f.mod.locs[n]
    return (l[0], l[1], f.mod.j["cols"][n])


def root(f, o):
    """The instruction an address is computed from."""
    while o["k"] == "i":
        i = f.inst[o["id"]]
        if i["op"] in ("getelementptr", "bitcast", "addrspacecast"): o = i["ops"][0]
        else: return i
    return None


def use(f, S):
    """alloca -> positions of the instructions that use it (directly or through an address computed from it)."""
    out = {}
    for i in f.insts():
        for o in ir.operands(i):
            b = root(f, o)
            if b is not None and b["op"] == "alloca": out.setdefault(b["id"], set()).add(pos(f, i))
    return out


def inside(ctx, raw):
    """Effects of the functions assertions call, in the inlined operations."""
    S = set()
    for f in raw.funcs.values(): S |= sites(f)
    cols = None; m = 0
    for n, f, p in api.analysed(list(api.ROLES)):
        cols = f.mod.j["cols"]; memo = {}

        def frame(dl):
            """The assertion this position lies in, and whether in a function it calls."""
            if dl in memo: return memo[dl]
            x, d, r = dl, 0, None
            while x >= 0:
                l = f.mod.locs[x]
                if (l[0], l[1], cols[x]) in S: r = ((l[0], l[1], cols[x], l[3]), d); break
                x = l[3]; d += 1
            memo[dl] = r
            return r
        touched = {}
        for i in f.insts():
            r = frame(i.get("dl", -1))
            for o in ir.operands(i):
                if o["k"] == "i":
                    for t, _ in p.v.get(o["id"], ()):
                        if t[0] == "A": touched.setdefault(t, set()).add(r[0] if r else None)
        for i, T, what in p.writes():
            r = frame(i.get("dl", -1))
            if r is None: continue
            m += 1
            if r[1] == 0 and what == "store": continue                 # decided on the unoptimised code
            bad = None
            for t, off in T:
                if t[0] in ("R", "G"): bad = t; break
                if t[0] == "A" and touched.get(t, set()) - {r[0]}: bad = t; break
                if t[0] == "H" and isinstance(t[1], int) and (frame(f.inst[t[1]].get("dl", -1)) or (None,))[0] != r[0]: bad = t; break
            if bad: ctx.bad("assertion in %s writes %s" % (fname(f, i, r), p.oname(bad)), "%s: %s in code called by an assertion may write %s" % (f.loc(i), what, p.oname(bad)))
            else: ctx.ok()
        for i in p.ext:
            r = frame(i.get("dl", -1))
            if r is None: continue
            fn = i.get("fn"); m += 1
            if fn is None: ctx.undec("assertion in %s: indirect call" % fname(f, i, r), f.loc(i))
            elif not p.nonwriting(i) and not re.match(r"_Z(N?K?S|St|NK?9__gnu_cxx)|_Zn|_Zd", fn): ctx.bad("assertion in %s calls %s" % (fname(f, i, r), pts.demangle(fn)), "%s: an assertion calls a function with effects" % f.loc(i))
            else: ctx.ok()
    ctx.cover["effects of assertions' callees"] = m


def fname(f, i, r):
    n = i.get("dl", -1)
    while n >= 0:
        l = f.mod.locs[n]
        if (l[0], l[1], f.mod.j["cols"][n]) == r[0][:3]: return ir.short(l[2])
        n = l[3]
    return f.dem


NA = "-I" + os.path.join(ir.VERIF, "tu", "noassert")


def tokens(defs):
    """The headers' lines after preprocessing, with their file and line, assertions blanked out."""
    r = ir.run([ir.CLANG, "-std=c++14", "-mpopcnt", "-w", "-E", NA, "-I" + os.path.join(ir.REPO, "include")] + defs + [os.path.join(ir.VERIF, "tu", api.TU)])
    if r.returncode: raise ir.Broken("does not preprocess: " + r.stderr[-1500:])
    out, file, line = [], "", 0
    for l in r.stdout.split("\n"):
        x = re.match(r'# (\d+) "([^"]*)"', l)
        if x: line = int(x.group(1)); file = x.group(2); continue
        if l.strip() and os.path.realpath(file).startswith(os.path.realpath(ir.REPO) + os.sep): out.append((" ".join(l.split()), file, line))
        line += 1
    return out


def builds(ctx):
    a, b = tokens([]), tokens(["-DNDEBUG"])
    ctx.need(len(a), 500, "lines compared between the build modes")
    if [x[0] for x in a] == [x[0] for x in b]: ctx.ok("identical tokens in both build modes", len(a)); return
    sm = difflib.SequenceMatcher(None, [x[0] for x in a], [x[0] for x in b], autojunk=False)
    lines = []
    for tag, i1, i2, j1, j2 in sm.get_opcodes():
        if tag != "equal": lines += a[i1:i2] + b[j1:j2]
    ms = [ir.load(api.TU, ["^q_", "^i_", "^c_"], passes="", no_inline=True, defines=d, flags=[NA, "-fno-discard-value-names"]) for d in ([], ["NDEBUG"])]
    names = set(ms[0].funcs) | set(ms[1].funcs); diff = 0
    for n in sorted(names):
        f, g = ms[0].funcs.get(n), ms[1].funcs.get(n)
        if f is None or g is None:
            if not (f or g).name.startswith(("_ZSt", "_ZNSt", "_ZNKSt", "_ZN9__gnu")): diff += 1
            continue
        e, h = effects(f), effects(g)
        if e == h: continue
        for k in sorted(set(e) | set(h)):
            if len(e.get(k, ())) != len(h.get(k, ())):
                i = (e.get(k) or h.get(k))[-1]; where = (f if k in e else g).loc(i)
                ctx.bad("%s: %s in one build mode only" % (ir.short(n), k), "%s: debug and release builds differ in '%s' (%d and %d times)" % (where, k, len(e.get(k, ())), len(h.get(k, ())))); break
    x = lines[0]
    ctx.undec("code under NDEBUG", "%s:%d differs between the build modes: %s" % (x[1], x[2], x[0][:100]))


def effects(f):
    """{description: instructions} of the externally visible effects of a function."""
    out = {}
    for i in f.insts():
        k = None
        if i["op"] == "store":
            b = root(f, i["ops"][1])
            if b is None or b["op"] != "alloca": k = "write to memory"
            elif b.get("nm") == "retval": k = "result"
        elif i["op"] in ("call", "invoke"):
            fn = i.get("fn") or "indirect call"
            if fn.startswith("llvm."):
                if not fn.startswith(("llvm.memcpy", "llvm.memmove", "llvm.memset")): continue
                b = root(f, i["ops"][0])
                if b is not None and b["op"] == "alloca": continue
                k = "block write"
            elif fn.startswith(("_ZNK",)) or i.get("ro") or i.get("rn"): continue
            else: k = "call of " + ir.short(fn)
        elif i["op"] in ("atomicrmw", "cmpxchg"): k = "atomic write"
        if k: out.setdefault(k, []).append(i)
    return out
