"""A small decision procedure for linear integer facts: Fourier-Motzkin elimination over the rationals, with the defining
inequalities of remainders, quotients and roundings and case splits for two-way choices and disequalities.
It only ever answers 'this cannot be' (sound) or 'not shown'."""
from fractions import Fraction
import terms as t
from terms import Term, Cond, const, sub, add, scale, TRUE, FALSE

LIMIT = 400


def ge(x): return x            # a constraint is a Term that is >= 0


def unsat(cons, depth=0):
    """Is the conjunction of (Term >= 0) impossible?  Atoms are variables."""
    rows = []
    for c in cons:
        if not c.m:
            if c.c < 0: return True
            continue
        rows.append(({a: v for a, v in c.m.items()}, c.c))
    while True:
        occ = {}
        for m, c in rows:
            for a, v in m.items():
                o = occ.setdefault(a, [0, 0]); o[v > 0] += 1
        if not occ: return any(c < 0 for m, c in rows)
        # drop variables bounded on one side only, otherwise eliminate the cheapest
        a = min(occ, key=lambda k: occ[k][0] * occ[k][1] - occ[k][0] - occ[k][1])
        pos = [r for r in rows if r[0].get(a, 0) > 0]; neg = [r for r in rows if r[0].get(a, 0) < 0]
        rest = [r for r in rows if not r[0].get(a, 0)]
        new = {}
        for m, c in pos:
            for n, d in neg:
                p, q = m[a], -n[a]
                r = {}
                for k, v in m.items():
                    if k is not a: r[k] = r.get(k, 0) + v * q
                for k, v in n.items():
                    if k is not a: r[k] = r.get(k, 0) + v * p
                r = {k: v for k, v in r.items() if v}
                e = c * q + d * p
                if not r:
                    if e < 0: return True
                    continue
                g = 0
                for v in r.values(): g = t.gcd(g, v)
                if g > 1: r = {k: v // g for k, v in r.items()}; e = e // g          # integers: round down
                key = tuple(sorted(((k.n, v) for k, v in r.items())))
                if key not in new or e < new[key][1]: new[key] = (r, e)
        rows = rest + list(new.values())
        if len(rows) > LIMIT: return False


class Prover:
    """facts: Conds known to hold; extra: callback giving further constraints for an atom; unsigned: callback telling whether
    an atom is never negative."""

    def __init__(self, facts, extra=None, nonneg=lambda a: True, first=()):
        self.first = list(first)
        self.facts, self.extra, self.nonneg = list(facts), extra, nonneg
        self.steps = 0

    def proves(self, goal):
        """Is the Cond implied by the facts?"""
        if goal is TRUE: return True
        if goal is FALSE: return False
        return self.refute([t.neg(goal)])

    def refute(self, conds):
        """Are the conditions impossible together with the facts?  Facts further and further away are taken in."""
        rel = set()
        for c in conds: rel |= t.atoms_in(c)
        done = None
        for size, hops in ((0, 0), (2, 9), (4, 9), (99, 1), (99, 3)):
            use = self.near(rel, size, hops)
            if use == done: continue
            if len(use) > 40: return False
            done = use; self.steps = 0
            if self.split(list(conds) + self.first + use, [], {}, 0): return True
        return False

    def near(self, rel, size, hops):
        """The facts of at most this many quantities that are connected to the given ones in that many steps."""
        rel, use, rest = set(rel), [], [(f, t.atoms_in(f)) for f in self.facts] if hops else []
        rest = [(f, a) for f, a in rest if len(a) <= size]
        for _ in range(hops):
            new = [(f, a) for f, a in rest if a & rel]
            if not new: break
            rest = [x for x in rest if x not in new]
            for f, a in new: use.append(f); rel |= a
        return use

    def split(self, conds, cons, choice, depth):
        """Turn conditions into constraints, splitting cases; True if every case is impossible."""
        self.steps += 1
        if self.steps > 4000: return False
        cons = list(cons); conds = list(conds)
        diseq = []
        while conds:
            c = conds.pop()
            if c is TRUE: continue
            if c is FALSE: return True
            k = c.key
            if k[0] == "and":
                if c.pos: conds += [k[1], k[2]]; continue
                if depth < 12:
                    conds += [t.neg(t.eq(x, const(0))) for x in diseq]
                    return self.split(conds + [t.neg(k[1])], cons, choice, depth + 1) and self.split(conds + [k[1], t.neg(k[2])], cons, choice, depth + 1)
                continue
            if k[0] not in ("eq", "lt"): 
                if k in choice and choice[k] != c.pos: return True
                choice = dict(choice); choice[k] = c.pos
                continue
            d = k[1]
            # a two-way choice inside: decide it first
            i = self.pick(d)
            if i is not None and depth < 14:
                g = i.args[0]
                more = [t.neg(t.eq(x, const(0))) for x in diseq]
                def put(val):
                    m = t.mk(0, {i: 1})
                    out = [self.replace(x, i, val) for x in conds + more + [c]]
                    cs = [x for x in (self.replace_term(y, i, val) for y in cons)]
                    return out, cs
                a, ca = put(i.args[1]); b, cb = put(i.args[2])
                return self.split(a + [g], ca, choice, depth + 1) and self.split(b + [t.neg(g)], cb, choice, depth + 1)
            if k[0] == "lt": cons.append(sub(d, const(1)) if c.pos else scale(d, -1))
            elif c.pos: cons += [d, scale(d, -1)]
            else: diseq.append(d)
        full = cons + self.axioms(cons + diseq)
        if unsat(full): return True
        for d in diseq:
            # d != 0
            if unsat(full + [sub(d, const(1))]): full.append(sub(scale(d, -1), const(1)))
            elif unsat(full + [sub(scale(d, -1), const(1))]): full.append(sub(d, const(1)))
        if unsat(full): return True
        return False

    def pick(self, d):
        """A two-way choice somewhere in the term."""
        for a in t.atoms_in(d):
            if a.kind == "ite" and not any(b.kind == "ite" for x in a.args for b in t.atoms_in(x)): return a
        return None

    def replace(self, c, a, v): return t.subst(c, lambda x: v if x is a else None) if a in t.atoms_in(c) else c
    def replace_term(self, x, a, v): return t.subst(x, lambda y: v if y is a else None) if a in t.atoms_in(x) else x

    def axioms(self, terms):
        out, seen, todo = [], set(), []
        for x in terms: todo += list(t.atoms_in(x))
        while todo:
            a = todo.pop()
            if a in seen: continue
            seen.add(a); T = t.mk(0, {a: 1}); k, g = a.kind, a.args
            new = []
            if k == "rem" and isinstance(g[0], Term):
                new += [T, sub(const(g[1] - 1), T)]
                q = t.div(g[0], g[1])
                # x = k * (x/k) + x%k, whenever the quotient occurs too
                if any(b in q.m for b in list(seen) + todo): new += [sub(g[0], add(scale(q, g[1]), T)), sub(add(scale(q, g[1]), T), g[0])]
                new += [sub(g[0], T)] if self.nn(g[0]) else []
            elif k == "div" and isinstance(g[0], Term):
                new += [sub(g[0], scale(T, g[1])), sub(add(scale(T, g[1]), const(g[1] - 1)), g[0])]
            elif k == "up" and isinstance(g[0], Term): new += [sub(T, g[0]), sub(add(g[0], const(g[1] - 1)), T)]
            elif k == "exact" and isinstance(g[0], Term): new += [sub(g[0], scale(T, g[1])), sub(scale(T, g[1]), g[0])]
            elif k == "and" and len(g) == 2 and all(isinstance(x, Term) for x in g):
                new.append(T)
                for x in g: new += [sub(x, T)]
            elif k in ("trunc",): new += [T, sub(const((1 << int(g[1][1:])) - 1), T)]
            elif k == "lshr" and isinstance(g[0], Term): new += [T, sub(g[0], T)]
            if self.extra: new += self.extra(a)
            if k not in t.DERIVED and self.nonneg(a): new.append(T)
            for x in new:
                out.append(x)
                for b in t.atoms_in(x):
                    if b not in seen: todo.append(b)
        return out

    def nn(self, x): return x.c >= 0 and all(v > 0 and (a.kind in ("rem", "div", "up", "trunc", "and", "lshr") or a.kind not in t.DERIVED and self.nonneg(a)) for a, v in x.m.items())
