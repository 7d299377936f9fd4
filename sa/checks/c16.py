"""Definite initialisation of iterators.  Each operation that hands out an iterator is interpreted with the iterator's storage
holding marked, unset values, on every filter that construction can return; afterwards every member is followed back through
the places where paths meet, under the branch conditions of each path, to see whether a mark is still in it.  A member with a
mark on some path is a violation once an operation on that iterator decides something by it, or answers with it; an iterator
that leaves such a member alone until it has set it is fine.  Numbers of local
variables and temporaries carry marks from the start, too."""
import api, life, absint, inv, terms as t
from absint import Ptr, Cond, Cell, const
from terms import Term
from checks import c08

ITER = "surf::SuRF::Iter"


def marks():
    c = Cell()
    for off, sz, n, ty in life.leaves(ITER):
        if sz: c.f[off] = (sz, t.at("raw", n))
    return c


def joint(facts, more):
    """The two sets of conditions together, or None if they contradict."""
    out = dict(facts)
    for k, p in more.items():
        c = t.cond(k, p)
        if c is t.TRUE: continue
        if c is t.FALSE or out.setdefault(c.key, c.pos) != c.pos: return None
    return out


def mark(a): return a.kind == "raw" or a.kind == "const" and "'undef'" in str(a.args[0])


def reached(I, v):
    """Is there any mark the value may come from, whatever the conditions?"""
    memo = I.__dict__.setdefault("_marks", {}); todo, seen = [v], set()
    while todo:
        x = todo.pop()
        if isinstance(x, Ptr): x = x.off
        if not isinstance(x, (Term, Cond)) or x in seen: continue
        if memo.get(x): return memo.setdefault(v, True)
        if x in memo: continue
        seen.add(x)
        for c in [x] if isinstance(x, Cond) else []: todo += [w for w, _ in I.cjoins.get(c.key, ())]
        todo += [y for c in t.conds_in(x) for y, _ in I.cjoins.get(c.key, ())]
        for a in t.atoms_in(x):
            if mark(a): memo[v] = True; return True
            if a.kind == "j": todo += [w for w, _ in I.joins.get(a, ())]
            elif a.kind == "phi": todo += [w for w, _ in I.B.sources(a) or ()]
    for x in seen: memo[x] = False
    return False


def holes(B, v, facts):
    """[(mark, conditions)]: the ways a mark gets into the value."""
    B.I.B = B
    return flows(B, v, facts) if reached(B.I, v) else ()


def flows(B, v, facts, seen=(), depth=0):
    I = B.I
    if depth > 12: return
    if isinstance(v, Ptr): v = v.off
    if isinstance(v, Cond):
        if v.key in I.cjoins:
            if v.key in seen: return
            for w, fx in I.cjoins[v.key]:
                f = joint(facts, fx)
                if f is not None: yield from flows(B, w, f, seen + (v.key,), depth + 1)
        for x in v.key[1:]:
            if isinstance(x, (Term, Cond)): yield from flows(B, x, facts, seen, depth + 1)
        return
    if not isinstance(v, Term): return
    for a in sorted(v.m, key=lambda a: a.n):
        if mark(a): yield a, facts
        elif a.kind == "ite":
            yield from flows(B, a.args[0], facts, seen, depth + 1)
            for c, x in ((a.args[0], a.args[1]), (t.neg(a.args[0]), a.args[2])):
                f = joint(facts, {c.key: c.pos})
                if f is not None: yield from flows(B, x, f, seen, depth + 1)
        elif a.kind in ("j", "phi"):
            if a in seen: continue
            for w, fx in (I.joins.get(a) or [] if a.kind == "j" else B.sources(a) or []):
                f = joint(facts, fx)
                if f is not None: yield from flows(B, w, f, seen + (a,), depth + 1)
        elif a.kind in t.DERIVED:
            for x in a.args:
                if isinstance(x, (Term, Cond)): yield from flows(B, x, facts, seen, depth + 1)


def fixed(B, v, facts, depth=0):
    """The value a member has under these conditions, as far as they select among the paths that met."""
    if depth > 8 or not isinstance(v, Term): return v
    I = B.I
    for a in sorted(v.m, key=lambda a: a.n):
        if a.kind == "j":
            ok = [w for w, fx in I.joins.get(a, []) if joint(facts, fx) is not None]
            if len(ok) == 1: return fixed(B, t.subst(v, lambda b: ok[0] if b is a else None), facts, depth + 1)
        if a.kind == "ite" and a.args[0].key in facts:
            return fixed(B, t.subst(v, lambda b: a.args[1 if facts[a.args[0].key] == a.args[0].pos else 2] if b is a else None), facts, depth + 1)
    return v


class recorder:
    """Collects (interpreter, block, condition, state) of the branches whose condition may carry a mark."""

    def __enter__(self):
        self.old = absint.Interp.block, absint.Interp.fork, absint.Interp.switch
        block, fork, switch = self.old; rec = self.rec = []; at = [None]

        def block_(I, b, st, out): at[0] = b; return block(I, b, st, out)

        def fork_(I, st, br):
            if br[0][1] != br[1][1] and I.known(st, br[0][0]) is None: rec.append((I, at[0], br[0][0], st))
            return fork(I, st, br)

        def switch_(I, st, br, default):
            for c, _ in br: rec.append((I, at[0], c, st))
            return switch(I, st, br, default)
        absint.Interp.block, absint.Interp.fork, absint.Interp.switch = block_, fork_, switch_
        return rec

    def __exit__(self, *a): absint.Interp.block, absint.Interp.fork, absint.Interp.switch = self.old


def decisions(I, rec, res, given):
    """(mark, where) of the decisions and answers a mark takes part in, under the given conditions."""
    if not hasattr(I, "B"): I.B = inv.Bounds(I)
    for _, b, c, st in rec:
        f = joint(st.facts, given)
        if f is None: continue
        for a, _ in holes(I.B, c, f): yield a, I.fn.loc(I.fn.blocks[b][-1])
    for v, st in res:
        f = joint(st.facts, given)
        if f is None or not isinstance(v, (Term, Cond)): continue
        for a, _ in holes(I.B, v, f): yield a, "the result"


def run(ctx):
    ctx.level = "proof"
    ctx.rule("every member of an iterator handed out is set on every path, or no operation on it decides or answers by the member")
    ctx.assume += ["containers set the elements they are resized to", "an iterator made by the default constructor is not used before it is assigned"]
    L = [(off, sz, n, ty) for off, sz, n, ty in life.leaves(ITER) if sz]
    ctx.need(len(L), 12, "members of an iterator")
    fs = [life.built(ty) for ty in life.KINDS]
    api.MARKS = True
    try: follow(ctx, fs, L)
    finally: api.MARKS = False


def follow(ctx, fs, L):
    nf = 0
    for ls in fs:
        for l in ls:
            nf += 1
            for n in api.RAW: seek(ctx, l, n, L)
    ctx.need(nf, 4, "abstract filters")
    for n in [x for x in api.ROLES if x[:2] in ("q_", "i_")]:
        l = fs[2][0]
        with recorder() as rec: I, res = c08.interpret(l, n)
        bad = sorted({w for a, w in decisions(I, rec, res, {}) if a.kind != "raw"})
        for w in bad: ctx.bad("%s decides by a variable that was never set" % api.human(n), w)
        if not bad: ctx.ok("%s: %d decisions by set values" % (api.human(n), len(rec)))


def seek(ctx, l, n, L):
    I, res = c08.interpret(l, n, cell=lambda r, k: marks() if r == "out" else None)
    B = I.B = inv.Bounds(I)
    ctx.need(len(res), 1, "final states of " + n)
    for v, st in res:
        o = next(o for o in st.heap if o.name.startswith("out")); c = st.heap[o]
        for off, sz, m, ty in L:
            x = c.f.get(off)
            what = "%s, %s: member %s" % (api.human(n[2:] and n), l.what, m)
            if x is None: ctx.undec(what, "not followed"); continue
            h = list(holes(B, x[1], st.facts))
            if not h: ctx.ok(what); continue
            a, f = h[0]
            use = used(l, B, c, L, h[:6])
            if use: ctx.bad("%s returns an iterator with %s unset" % (api.human(n), m), "%s: %s decides by it at %s" % ((l.what,) + use))
            else: ctx.undec(what, "unset on some paths, but no decision by it was found")


def used(l, B, c, L, hs):
    """(operation, place) deciding by a member that is still unset in one of these ways."""
    for a, f in hs:
        cell = Cell()
        for off, sz, n, ty in L:
            x = c.f.get(off)
            if x is not None: cell.f[off] = (x[0], fixed(B, x[1], f))
        for n in api.ITEROPS:
            with recorder() as rec: I, res = c08.interpret(l, n, cell=lambda r, k: cell.copy() if r == "iter" else None)
            for b, w in decisions(I, rec, res, f):
                if b is a: return api.human(n), w
    return None
