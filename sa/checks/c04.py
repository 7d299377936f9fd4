"""Symbolic image layout.  For each suffix type and each abstract filter construction can return, serializedSize(),
serialize() and deSerialize() are interpreted over the same heap: the image becomes a list of segments (start, length,
what was written) whose ends are terms over the filter's contents.  Obligations: the announced size equals the size of the
image block, and the segments fill it without overlapping or passing its end, padding below 8 bytes aside; the loaded
object graph has the same shape; each stored number is the one saved; each array is the image's copy of the saved array,
in full.  Equality of terms is decided over the values of their atoms, so the way a size is written does not matter."""
import api, life, absint, terms as t
from absint import Ptr, NULL
from terms import const, sub, add


def run(ctx):
    ctx.level = "proof"
    ctx.rule("announced size = image size; image segments adjacent up to alignment; loaded graph isomorphic to the saved one with equal numbers and fully copied arrays")
    ctx.assume += ["sizes are unbounded integers", "the source buffer is aligned to 8 bytes"]
    ctx.filters = ctx.segs = ctx.fields = ctx.arrays = 0
    for ty in life.KINDS:
        for l in life.built(ty):
            ctx.filters += 1
            l.paths = life.paths(l.heap, l.ptr); l.vague = False
            announced(ctx, l)
            for v, st, I in life.saved(l):
                if not isinstance(v, Ptr) or v.obj not in st.heap: ctx.undec("image of " + l.what); continue
                l.vague |= st.heap[v.obj].dirty
                layout(ctx, l, v, st)
            if l.vague: ctx.undec("loading of " + l.what, "what the image holds is not known"); continue
            ls = life.loaded(l)
            if not ls: ctx.undec("loading of " + l.what)
            for v, st, L in ls:
                if not isinstance(L.ptr, Ptr): ctx.undec("loaded filter of " + l.what); continue
                compare(ctx, l, L)
    for k in ("filters", "segs", "fields", "arrays"): ctx.cover[{"filters": "abstract filters", "segs": "image segments", "fields": "numbers compared", "arrays": "arrays compared"}[k]] = getattr(ctx, k)


def own(x, l): return life.of_state(x, "c%d" % l.ty)


def differ(ctx, key, text, a, b, l, facts):
    """a and b must be equal; refutable only where both are terms over the filter's own contents."""
    r = t.same(a, b, facts)
    if r is True: ctx.ok(); return True
    if r is None or not own(a, l) or not own(b, l): ctx.undec(key, "%s vs %s" % (short(a), short(b))); return False
    ctx.bad(key, "%s (%s against %s, for example %d against %d)" % (text, short(a), short(b), r.term(a), r.term(b)))
    return False


def short(x): return repr(x)[:120]


def announced(ctx, l):
    I, out = life.op("q_serializedSize").run([l.ptr], "z", heap=l.heap, facts=l.facts)
    for v, st in out:
        for im, s2, _ in life.saved(l):
            if not isinstance(im, Ptr) or not isinstance(v, t.Term): ctx.undec("announced size of " + l.what); continue
            facts = dict(s2.facts); facts.update(st.facts)
            differ(ctx, "announced size", "%s: serializedSize() announces a different size than the image serialize() allocates" % l.what, v, im.obj.size, l, facts)


def layout(ctx, l, v, st):
    c = st.heap[v.obj]; size = v.obj.size
    if v.off is not const(0): ctx.bad("image pointer", "serialize() returns a pointer into the middle of the image")
    if c.dirty: ctx.undec("image writes of " + l.what, "the image is written in a way the analysis does not follow"); return
    segs = life.segments(c)
    ctx.segs += len(segs)
    vs = t.valuations(st.facts, [size] + [x for s in segs for x in s[:2]], 24, [size] + [s[1] for s in segs])
    if not vs: ctx.undec("layout of " + l.what); return
    mine = own(size, l) and all(own(x, l) for s in segs for x in s[:2])
    err = None
    for w in vs:
        at, prev = 0, None
        for a, b, s in sorted(((w.term(s[0]), w.term(s[0]) + w.term(s[1]), n) for n, s in enumerate(segs) if all(w.cond(g) for g in s[3])), key=lambda x: x[:2]):
            if a == b: continue
            if a < at: err = ("segments overlap", "%s overlaps %s" % (what(l, segs[s]), what(l, segs[prev]) if prev is not None else "?"))
            elif a - at >= 8: err = ("unwritten gap", "%d bytes before %s are not written" % (a - at, what(l, segs[s])))
            at, prev = max(at, b), s
            if err: break
        end = w.term(size)
        if not err and at > end: err = ("image too small", "%s ends %d bytes past the announced size" % (what(l, segs[prev]), at - end))
        if not err and end - at >= 8: err = ("image too large", "%d bytes at the end of the image are not produced" % (end - at))
        if err: break
    if not err: ctx.ok("%s: %d segments fill the image" % (l.what, len(segs)), len(segs) + 1)
    elif mine: ctx.bad("layout: " + err[0], "%s: %s" % (l.what, err[1]))
    else: ctx.undec("layout: " + err[0], err[1])


def what(l, s):
    tok = s[2]
    if tok and tok[0] == "bytes" and tok[1] in l.paths: return "array " + life.pname(l.paths[tok[1]][0])
    if tok and tok[0] == "val":
        for o, (p, cls) in l.paths.items():
            for off, (sz, x) in (l.heap[o].f.items() if o in l.heap else ()):
                if x is tok[1]: return "number %s" % life.pname(p + (life.leaf(cls, off)[0],))
    return "a segment"


def compare(ctx, l, L):
    """The loaded graph against the saved one."""
    seen = {}
    todo = [(l.ptr, L.ptr, (), "surf::SuRF")]
    paths = l.paths
    while todo:
        p, q, path, cls = todo.pop()
        name = life.pname(path)
        if not isinstance(p, Ptr): continue
        if p.obj is NULL.obj or p.obj not in l.heap or not l.heap[p.obj].alive: continue        # nothing to save behind this pointer
        if not isinstance(q, Ptr): ctx.undec("%s after loading" % name); continue
        if q.obj is NULL.obj or q.obj not in L.heap:
            if q.obj in l.heap: ctx.bad("%s shared" % name, "%s: the loaded filter points to the saved filter's %s" % (l.what, name))
            elif q.obj is NULL.obj: ctx.bad("%s not recreated" % name, "%s: %s is missing after loading" % (l.what, name))
            else: ctx.undec("%s after loading" % name)
            continue
        if p.obj in seen:
            if seen[p.obj] is not q.obj: ctx.undec("%s shared before saving" % name)
            continue
        if q.obj in seen.values(): ctx.bad("%s aliased" % name, "%s: %s of the loaded filter is the same block as another part" % (l.what, name)); continue
        seen[p.obj] = q.obj
        a, b = l.heap[p.obj], L.heap[q.obj]
        if p.obj.kind == "new[]" or q.obj.kind == "new[]": array(ctx, l, L, name, p.obj, q.obj, a, b); continue
        for off, (sz, v) in sorted(a.f.items()):
            nm, ty, s = life.leaf(cls, off)
            mine = name + "->" + nm if path else nm
            if isinstance(v, Ptr):
                k = ty[:-1].strip() if ty.endswith("*") else ""
                todo.append((v, b.f[off][1] if off in b.f else None, path + (nm,), k))
                if off not in b.f and v.obj in l.heap and l.heap[v.obj].alive:
                    if b.dirty: ctx.undec(mine + " after loading")
                    else: ctx.bad("%s not recreated" % mine, "%s: %s is not set by loading" % (l.what, mine))
                continue
            ctx.fields += 1
            if off not in b.f:
                if b.dirty or b.segs: ctx.undec(mine + " after loading")
                else: ctx.bad("%s not recreated" % mine, "%s: the number %s is not set by loading" % (l.what, mine))
                continue
            w = b.f[off][1]
            if isinstance(v, t.Cond) or isinstance(w, t.Cond):
                if v is w: ctx.ok()
                else: ctx.undec(mine + " after loading")
                continue
            if not isinstance(w, t.Term): ctx.bad("%s changed" % mine, "%s: %s is an address after loading" % (l.what, mine)); continue
            if t.same(v, w, L.facts) is True: ctx.ok("%s: %s restored" % (l.what, mine)); continue
            raw = [x for x in t.atoms_in(w) if x.kind in ("bytesof",) or x.kind == "ld"]
            if own(w, l) and own(v, l): differ(ctx, "%s changed" % mine, "%s: loading does not restore %s" % (l.what, mine), w, v, l, L.facts)
            elif raw and misread(ctx, l, L, w): ctx.bad("%s misread" % mine, "%s: loading takes %s from a place of the image where saving put something else" % (l.what, mine))
            else: ctx.undec("%s after loading" % mine, short(w))


def misread(ctx, l, L, w):
    """Was this value taken from the image at a place that is no segment's start?"""
    for a in t.atoms_in(w):
        if a.kind == "bytesof" and isinstance(a.args[1], t.Term) and a.args[0] == str(L.src): return True
    return False


def array(ctx, l, L, name, p, q, a, b):
    ctx.arrays += 1
    segs = [s for s in b.segs if s[2] is not None]
    good, later = None, []
    for so, n, tok, g in segs:
        if tok[0] != "bytes": later.append((so, n, tok, g)); continue
        if tok[1] is p:
            if tok[2] is const(0) and so is const(0): good, later = n, []
            else: ctx.bad("%s shifted" % name, "%s: %s is copied to or from a displaced position" % (l.what, name)); return
        elif tok[1] in l.heap:
            ctx.bad("%s taken from another array" % name, "%s: loading fills %s with the saved %s" % (l.what, name, life.pname(l.paths[tok[1]][0]) if tok[1] in l.paths else "array")); return
        elif tok[1] is L.src and b.dirty: ctx.undec("%s after loading" % name); return
        elif tok[1] is L.src:
            ctx.bad("%s misread" % name, "%s: loading fills %s from a range of the image that is not the range saving wrote for it" % (l.what, name)); return
    if good is None:
        if not b.dirty and not segs and not b.init and not b.cinit and not b.lost: ctx.bad("%s not restored" % name, "%s: nothing is copied into %s" % (l.what, name))
        else: ctx.undec("%s after loading" % name)
        return
    # nothing changes the copy afterwards
    for so, n, tok, g in later + [(const(o), const(sz), ("val", v), ()) for o, (sz, v) in sorted(b.f.items())]:
        if not any(all(w.cond(x) for x in g) and w.term(so) < w.term(good) and w.term(so) + w.term(n) > 0 and w.term(n) > 0 for w in t.valuations(L.facts, [so, n, good], 24, [so, n, good])): continue
        if isinstance(tok[1], t.Term) and not tok[1].m: ctx.bad("%s overwritten" % name, "%s: after copying the saved %s, loading puts the constant %d into it" % (l.what, name, tok[1].c))
        else: ctx.undec("%s overwritten" % name)
        return
    # the copy covers what was saved, fits, and the block is as long as before
    whole = t.same(good, p.size, L.facts)
    fits = t.same(good, q.size, L.facts)
    if own(q.size, l) and own(p.size, l) and t.base(q.size) == t.base(p.size):
        differ(ctx, "%s length" % name, "%s: the loaded %s has a different length than the saved one" % (l.what, name), q.size, p.size, l, L.facts)
    if fits is not True and own(q.size, l) and own(good, l):
        for v in t.valuations(L.facts, [good, q.size], 24, [good, q.size]):
            if v.term(good) > v.term(q.size): ctx.bad("%s overrun" % name, "%s: loading copies more into %s than it allocates" % (l.what, name)); return
    if whole is not True and own(p.size, l) and t.base(good) == t.base(p.size):
        # a shorter copy is padding only if the reader fills the rest itself with a constant
        if life.covered(q.size, [(good, x[1]) if x[0] is good else x for x in b.init if not (x[0] is const(0) and x[1] is good)] + [(const(0), good)], L.facts, cond=b.cinit) is True: ctx.ok("%s: %s restored, padding aside" % (l.what, name))
        else: ctx.bad("%s cut short" % name, "%s: the image holds only part of %s (%s of %s bytes)" % (l.what, name, short(good), short(p.size)))
        return
    ctx.ok("%s: %s restored in full" % (l.what, name))
