"""Term comparison over abstract heaps.  getMemoryUsage() is interpreted on every abstract filter that construction and
loading can return, and its result compared with the sizes of the blocks of that filter: at least the sizes of its objects
and of the contents of its arrays (what saving would store of them), at most the sizes allocated."""
import life, terms as t
from absint import Ptr, NULL


def run(ctx):
    ctx.level = "proof"
    ctx.rule("sum of object sizes and array contents <= getMemoryUsage() <= sum of allocated sizes, for all values of the sizes")
    ctx.assume += ["sizes are unbounded integers"]
    n = 0
    for ty in life.KINDS:
        for l in life.built(ty):
            n += 1; one(ctx, l, "c%d" % ty)
            if life.vague(l): ctx.undec("loaded " + l.what, "what the image holds is not known"); continue
            for v, st, L in life.loaded(l):
                if isinstance(L.ptr, Ptr): n += 1; one(ctx, L, "c%d" % ty)
                else: ctx.undec("loaded filter of " + l.what)
    ctx.need(n, 1, "abstract filters")


def one(ctx, l, tag):
    cont = life.content(l); paths = life.paths(l.heap, l.ptr)
    lo = hi = t.const(0); parts = []; vague = None
    for o, (path, cls) in paths.items():
        if o not in l.heap or not l.heap[o].alive: continue
        s = cont.get(o, o.size) if o.kind == "new[]" else o.size
        if o.kind == "new[]" and o not in cont: vague = life.pname(path)      # how much of this block is contents is not known
        if o.kind == "new[]" and t.base(s) == t.base(o.size):
            d = t.sub(o.size, s)
            if not d.m and d.c < 0: s = o.size
        lo, hi = t.add(lo, s), t.add(hi, o.size if t.base(s) == t.base(o.size) else s)
        parts.append((life.pname(path), s))
    I, out = life.op("q_getMemoryUsage").run([l.ptr], "u", heap=l.heap, facts=l.facts)
    for v, st in out:
        if not isinstance(v, t.Term): ctx.undec("usage of " + l.what); continue
        if not all(life.of_state(x, tag) for x in (v, lo, hi)):
            ctx.undec("usage of " + l.what, repr(v)[:200]); continue
        facts = dict(l.facts); facts.update(st.facts)
        vs = t.valuations(facts, [v, lo, hi], 40, [s for _, s in parts])
        if not vs: ctx.undec("usage of " + l.what); continue
        for w in vs:
            if w.term(v) < w.term(lo):
                if vague: ctx.undec("usage of " + l.what, "the contents of %s are not known" % vague); break
                ctx.bad("memory usage too small", "%s: getMemoryUsage() leaves out %s" % (l.what, missing(w, v, lo, parts))); break
            if w.term(v) > w.term(hi): ctx.bad("memory usage too large", "%s: getMemoryUsage() exceeds the allocated sizes (%s over %s)" % (l.what, w.term(v), w.term(hi))); break
        else: ctx.ok("%s: %d blocks counted" % (l.what, len(parts)), len(parts))


def missing(w, v, lo, parts):
    d = t.sub(lo, v)
    for name, s in parts:
        if d is s or t.same(d, s) is True: return name
    return "%d bytes (%s)" % (w.term(d), repr(d)[:120])
