"""Ownership typestate over abstract heaps.  Construction, loading, saving and destruction are each inlined into one
function and interpreted over an allocation-site heap, once per suffix type.  Obligations: when construction, loading or
saving returns, every block it allocated is either released or reachable from its result; destruction releases every
block of the filter once, through its start, with the delete that matches the new; no construct reads or writes a block
after its release; and no operation loads a member left pointing to a released block."""
import api, life, absint, pts, terms as t
from absint import Ptr, NULL


def alloc_sites(o):
    return {i["id"] for i in o.f.insts() if i["op"] == "call" and pts.ALLOC.match(i.get("fn") or "") and not ((i.get("fn") or "").startswith("_Znw") and i["ops"][0]["k"] != "c")}


def ends(ctx, o, who, out, keep=()):
    """No block allocated by this operation is lost."""
    n = 0
    for v, st in out:
        r = set(life.reach(st.heap, v)) if isinstance(v, Ptr) else set()
        for ob, c in st.heap.items():
            if ob.kind not in ("new", "new[]") or ob in keep: continue
            n += 1
            if c.alive and ob not in r:
                if ob.single: ctx.bad("lost block %s in %s" % (short(ob), who), "%s: the block allocated at %s is neither released nor part of the result" % (who, ob.loc))
                else: ctx.undec("block %s in a loop of %s" % (short(ob), who), ob.loc)
            elif not c.alive and ob in r and ob.tracked: ctx.dangling.append((ob, v, st))
            else: ctx.ok()
        events(ctx, o, who, st)
    return n


def short(ob): return ob.loc.split(" (called")[0]


def events(ctx, o, who, st, live=None):
    for e in absint.flat_events(absint.events(st)):
        if e[0] == "double": ctx.bad("released twice: %s in %s" % (short(e[1]), who), "%s: the block allocated at %s is released again at %s" % (who, e[1].loc, o.f.loc(e[2])))
        elif e[0] == "dead": ctx.bad("used after release: %s in %s" % (short(e[1]), who), "%s: the block allocated at %s is used at %s after its release" % (who, e[1].loc, o.f.loc(e[2])))
        elif e[0] == "free":
            ob = e[1]
            if ob.kind in ("new", "new[]"):
                if ob.kind != e[3]: ctx.bad("wrong delete: %s in %s" % (short(ob), who), "%s: the block allocated by %s at %s is released by %s at %s" % (who, ob.kind, ob.loc, e[3].replace("new", "delete"), o.f.loc(e[4])))
                elif e[2] is not t.const(0): ctx.bad("inner pointer released: %s in %s" % (short(ob), who), "%s: a pointer into the middle of the block allocated at %s is released" % (who, ob.loc))
                else: ctx.ok("%s allocated at %s released at %s" % (ob.kind, ob.loc, o.f.loc(e[4])))
        elif e[0] == "free?":
            T = {x for x, _ in o.p.val(e[1]["ops"][0])}
            own = {x for x in T if x[0] == "H" and isinstance(x[1], int)} | {x for x in T if x[0] == "R"}
            if own: ctx.undec("release of an unresolved pointer at %s" % o.f.loc(e[1]))


def destroyed(ctx, l, who, heap):
    d = life.op("c_destroy")
    I, out = d.run([l.ptr], "d", heap=heap, facts=l.facts)
    if not out: ctx.undec("destroying " + who, "no path returns")
    for v, st in out:
        for ob in heap:
            if not heap[ob].alive or ob.kind not in ("new", "new[]"): continue
            path = l.paths.get(ob)
            name = life.pname(path[0]) if path else short(ob)
            if st.heap[ob].alive:
                unk = [e for e in absint.flat_events(absint.events(st)) if e[0] == "free?"]
                if unk: ctx.undec("release of %s (%s)" % (name, who))
                else: ctx.bad("leaked: %s" % name, "destroying a filter (%s) does not release %s, allocated at %s" % (who, name, ob.loc))
            else: ctx.ok()
        events(ctx, d, "destruction (%s)" % who, st)


def run(ctx):
    ctx.level = "proof"
    ctx.rule("after construction, loading, saving: every block released or reachable from the result; after destruction: every block released once with the matching delete")
    ctx.assume += ["buffers of standard containers are released by the containers", "allocation never fails", "tracked blocks are those allocated by new of a class and new[]"]
    ctx.dangling = []
    states = blocks = 0
    for ty in life.KINDS:
        o = life.op("c_create")
        I, out = life.create(ty, "k%d" % ty, sites=alloc_sites(o))
        if not out: ctx.undec("construction with " + life.KINDS[ty], "no path returns")
        blocks += ends(ctx, o, "construction", out)
        for v, st in out:
            states += 1
            l = life.Life("built, " + life.KINDS[ty], ty, v, st, I)
            if not isinstance(v, Ptr): ctx.undec("result of construction"); continue
            l.heap = {ob: c for ob, c in st.heap.items() if ob.tracked}
            l.paths = life.paths(l.heap, v)
            destroyed(ctx, l, l.what, l.heap)
        for l in life.built(ty):
            s = life.op("q_serialize")
            I, out = s.run([l.ptr], "v", heap=l.heap, facts=l.facts, sites=alloc_sites(s))
            blocks += ends(ctx, s, "saving", out, keep=set(l.heap))
            for v, st in out:
                for ob in l.heap:
                    if not st.heap[ob].alive and l.heap[ob].alive: ctx.bad("saving releases " + short(ob), "saving releases a block of the filter")
                d = life.op("c_deserialize")
                if not isinstance(v, Ptr): ctx.undec("image"); continue
                hp = {ob: c for ob, c in st.heap.items() if ob.tracked}
                I2, out2 = d.run([v], "m", heap=hp, facts=st.facts, sites=alloc_sites(d))
                blocks += ends(ctx, d, "loading", out2, keep=set(hp))
                for w, ls in out2:
                    states += 1
                    if not isinstance(w, Ptr): ctx.undec("result of loading"); continue
                    L = life.Life("loaded, " + life.KINDS[ty], ty, w, ls, I2)
                    L.heap = {ob: c for ob, c in ls.heap.items() if ob.tracked and ob not in hp}
                    L.paths = life.paths(L.heap, w)
                    destroyed(ctx, L, L.what, dict(L.heap))
    dangling(ctx)
    ctx.need(states, 1, "abstract filters (built and loaded)")
    ctx.need(blocks, 1, "allocated blocks followed")


def dangling(ctx):
    """Members left pointing to released blocks are never loaded."""
    mem = {}
    for ob, v, st in ctx.dangling:
        for o, (path, cls) in life.paths(st.heap, v).items():
            c = st.heap.get(o)
            if c is None or not c.alive: continue
            for off, (sz, w) in c.f.items():
                if isinstance(w, Ptr) and w.obj is ob: mem[(path, off)] = life.leaf(cls, off)[0]
    for n, f, p in api.analysed([x for x in api.ROLES if x[:2] in ("q_", "i_") or x in ("c_destroy", "c_save")], drop_asserts=True):
        for i, T in p.loads():
            for o, off in T:
                if o[0] == "R" and o[2] == "filter":
                    for (path, moff), nm in mem.items():
                        if o[3] == path and off == moff:
                            ctx.bad("released block used through %s" % nm, "%s: %s loads %s, which points to a block released during construction" % (f.loc(i), api.human(n), nm))
        ctx.ok("%s loads none of %s" % (api.human(n), sorted(set(mem.values()))))
