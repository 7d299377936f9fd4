"""Definite initialisation over abstract heaps.  Construction, loading and saving are interpreted once per suffix type;
each block carries the byte ranges that have been given a value on every path: scalar stores, block copies and fills, and
loops that sweep an array with their induction variable.  Obligations: for every part of a built and of a loaded filter,
each number and each array element is covered; in a saved image each byte is covered.  A read-modify-write of an element
gives it no value.  Where loops the analysis does not summarise write an array, its contents are taken as covered and only
the rest of the block is decided."""
import life, terms as t
from absint import Ptr, NULL
from terms import const, sub


def run(ctx):
    ctx.level = "proof"
    ctx.rule("numbers and array elements of built and loaded filters, and bytes of images, are covered by initialising writes on every path")
    ctx.assume += ["values copied into the filter from containers are themselves defined", "induction variables do not wrap around"]
    n = dict(filters=0, numbers=0, arrays=0, images=0)
    for ty in life.KINDS:
        for l in life.built(ty):
            n["filters"] += 1; filter_(ctx, l, n)
            for v, st, I in life.saved(l):
                if not isinstance(v, Ptr) or v.obj not in st.heap: ctx.undec("image of " + l.what); continue
                n["images"] += 1; image(ctx, l, v.obj, st, I)
            if life.vague(l): ctx.undec("loaded " + l.what, "what the image holds is not known"); continue
            for v, st, L in life.loaded(l):
                if isinstance(L.ptr, Ptr): n["filters"] += 1; filter_(ctx, L, n)
                else: ctx.undec("loaded filter of " + l.what)
    ctx.need(n["filters"], 1, "abstract filters"); ctx.cover.update({"numbers": n["numbers"], "arrays": n["arrays"], "images": n["images"]})


def filter_(ctx, l, n):
    content = life.content(l)
    for o, (path, cls) in life.paths(l.heap, l.ptr).items():
        if o not in l.heap or not l.heap[o].alive: continue
        c = l.heap[o]; name = life.pname(path)
        if o.kind != "new[]":
            for off, sz, nm, ty in life.leaves(cls):
                if ty.endswith("*") or not sz: continue
                n["numbers"] += 1
                if off in c.f or any(not x.m and not k.m and x.c <= off and off + sz <= x.c + k.c for x, k in c.init): ctx.ok("%s: %s->%s has a value" % (l.what, name, nm)); continue
                w = [i for i in life.writers(l, o)]
                if c.cinit and life.covered(const(off + sz), [(const(x), const(k)) for x, (k, _) in c.f.items()] + list(c.init), l.facts, start=const(off), cond=c.cinit) is True: ctx.ok(); continue
                if c.lost: ctx.undec("%s->%s" % (name, nm), "written on some paths"); continue
                if w: ctx.undec("%s->%s" % (name, nm), "written at %s in a loop" % l.interp.fn.loc(w[0]))
                else: ctx.bad("%s->%s undefined" % (name, nm), "%s: the number %s->%s (allocated at %s) has no value on some path" % (l.what, name, nm, o.loc))
            continue
        n["arrays"] += 1
        array(ctx, l, o, c, name, content.get(o))


def array(ctx, l, o, c, name, cont):
    pieces = list(c.init)
    r = life.covered(o.size, pieces, l.facts, cond=c.cinit)
    if r is True: ctx.ok("%s: all of %s has values" % (l.what, name)); return
    w = life.writers(l, o)
    if w:
        # the loops may cover the contents; nothing says they cover more
        r2 = life.covered(o.size, pieces + [(const(0), cont)], l.facts, cond=c.cinit) if cont is not None else True
        k = sub(o.size, cont) if cont is not None else None
        if r2 is True or k is None or k.m: ctx.undec("%s: coverage of %s" % (l.what, name), "written at %s" % l.interp.fn.loc(w[0]))
        else: ctx.bad("padding of %s undefined" % name, "%s: the last %d bytes of %s (allocated at %s) have no value" % (l.what, k.c, name, o.loc))
        return
    # a range that ends where some loop happened to stop may well fill the block
    held = set().union(*(t.base(v) for k in l.heap.values() for _, v in k.f.values() if isinstance(v, t.Term)))
    other = [x for x in pieces + list(c.cinit) if any(a.kind in ("phi", "j", "jp", "len", "v") for a in (t.base(x[0]) | t.base(x[1])) - t.base(o.size) - held)]
    if r is None or c.lost or other: ctx.undec("%s: coverage of %s" % (l.what, name)); return
    ctx.bad("%s undefined" % name, "%s: bytes %d to %d of %s (allocated at %s, %s bytes) have no value, for example" % (l.what, r.hole[0], r.hole[1], name, o.loc, repr(o.size)[:80]))


def image(ctx, l, o, st, I):
    c = st.heap[o]
    pieces = list(c.init) + [(s[0], s[1]) for s in c.segs if not s[3]] + [(const(a), const(s)) for a, (s, v) in c.f.items()]
    r = life.covered(o.size, pieces, st.facts, cond=c.cinit)
    if r is True: ctx.ok("%s: every byte of the image is written" % l.what); return
    L = life.Life("", 0, None, st, I)
    if r is None or c.lost or c.dirty or life.writers(L, o): ctx.undec("image of " + l.what); return
    if not life.of_state(o.size, "c%d" % l.ty): ctx.undec("image of " + l.what); return
    ctx.bad("image bytes undefined", "%s: bytes %d to %d of the image are never written, for example" % (l.what, r.hole[0], r.hole[1]))
