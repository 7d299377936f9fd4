"""Access-width analysis against abstract heaps.  Every load in every query and iterator operation is resolved to the array
it reads (points-to analysis) and its width compared with the array's element size.  A load of w bytes from an array of
e-byte elements may start at the last element and so reads up to w-e bytes past the contents: the block must be at least
that much longer than its contents, in every filter construction and loading can return (abstract interpretation of both
gives the block's size and the size of the contents as terms)."""
import api, life, pts, terms as t
from absint import Ptr

SIZE = {"unsigned char": 1, "char": 1, "signed char": 1, "unsigned short": 2, "unsigned int": 4, "int": 4, "unsigned long": 8, "long": 8}


def run(ctx):
    ctx.level = "proof"
    ctx.rule("wide load of w bytes from an array of e-byte elements: block size - contents >= w - e in built and loaded filters")
    ctx.assume += ["a load starts at or before the last element of its array"]
    wide = {}; n = 0
    for name, f, p in api.analysed([x for x in api.ROLES if x[:2] in ("q_", "i_")], drop_asserts=True):
        for i, T in p.loads():
            for o, off in T:
                if o[0] != "R" or o[2] != "filter" or p.fclass(o[3]) is not None or not o[3]: continue
                c = p.fclass(o[3][:-1])
                ty = {nm: ty for _, _, nm, ty in p.leaves(c)}.get(o[3][-1], "") if c else ""
                e = SIZE.get(ty.rstrip("*").strip().replace("const ", ""))
                if e is None: continue
                n += 1
                if i["sz"] > e:
                    k = wide.setdefault(o[3], {}); k.setdefault(i["sz"] - e, (f.loc(i), i["sz"], e))
                else: ctx.ok()
    ctx.need(n, 1, "loads from the filter's arrays")
    ctx.cover["arrays read by wide loads"] = sorted("->".join(x) for x in wide)
    m = 0
    for ty in life.KINDS:
        for l in life.built(ty):
            m += one(ctx, l, wide, "c%d" % ty)
            if life.vague(l): ctx.undec("loaded " + l.what, "what the image holds is not known"); continue
            for v, st, L in life.loaded(l):
                if isinstance(L.ptr, Ptr): m += one(ctx, L, wide, "c%d" % ty)
                else: ctx.undec("loaded filter of " + l.what)
    ctx.cover["arrays checked"] = m


def one(ctx, l, wide, tag):
    cont = life.content(l); n = 0
    for o, (path, cls) in life.paths(l.heap, l.ptr).items():
        for over, (loc, w, e) in wide.get(path, {}).items():
            n += 1; name = life.pname(path)
            s = cont.get(o)
            if s is None: ctx.undec("contents of " + name, l.what); continue
            d = t.sub(o.size, s)
            if not d.m and d.c >= over: ctx.ok("%s: %s has %d bytes behind its contents for the %d-byte load at %s" % (l.what, name, d.c, w, loc)); continue
            if not life.of_state(o.size, tag) or not life.of_state(s, tag): ctx.undec("padding of " + name, l.what); continue
            bad = next((v for v in t.valuations(l.facts, [o.size, s], 40, [o.size, s]) if v.term(d) < over), None)
            if bad is None: ctx.ok()
            elif t.base(o.size) != t.base(s): ctx.undec("padding of " + name, "%s against %s" % (o.size, s))
            else: ctx.bad("read past %s" % name, "%s: the %d-byte load at %s may read %d bytes past %s, allocated at %s with only %d bytes behind its contents" % (l.what, w, loc, over, name, o.loc, bad.term(d)))
    return n
