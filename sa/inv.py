"""Bounds of loop-carried and joined values by induction.  A value that is merged (at a loop header, or where paths meet) has
a finite list of sources, each with the branch conditions that hold there; a bound holds if every source satisfies it, given
the bounds assumed for the other merged values.  The largest set of candidate bounds with that property is computed by
discarding candidates until nothing changes."""
import time
import terms as t, lin
from terms import Term, const, sub, neg

CONSTS = (0, 1, 7, 8, 15, 16, 31, 32, 63, 64, 255)


def same_loads(f, p):
    """{load: earlier load of the same loop round that reads the same address}, where nothing in the loop may write there."""
    if hasattr(f, "_same_loads"): return f._same_loads
    written = {}
    for i, T, what in p.writes():
        if what == "release": continue
        b = f.blk[i["id"]]; S = {o for o, _ in T}
        written.setdefault(None, set()).update(S)
        for h, body in f.loops.items():
            if b in body: written.setdefault(h, set()).update(S)
    rep, keys, memo = {}, {}, {}

    def key(o, h):
        if o["k"] != "i": return str(sorted(o.items(), key=str))
        n = o["id"]
        if (n, h) in memo: return memo[n, h]
        memo[n, h] = ("i", n)
        d = f.inst[n]; r = ("i", n)
        if d["op"] == "getelementptr" and not d.get("badgep"): r = ("gep", key(d["ops"][0], h), d["off"], tuple((key(x, h), s) for x, s in d["idx"]))
        elif d["op"] in ("zext", "sext", "trunc", "bitcast"): r = (d["op"], d["ty"], key(d["ops"][0], h))
        elif d["op"] == "load" and stable(d, h): r = ("ld", d["ty"], key(d["ops"][0], h))
        memo[n, h] = r
        return r

    def stable(d, h): return f.loop_of(f.blk[d["id"]]) == h and not d.get("vol") and not {o for o, _ in p.val(d["ops"][0])} & written.get(h, set())
    for b in f.order:
        h = f.loop_of(b)
        for d in f.blocks[b]:
            if d["op"] == "load" and stable(d, h):
                k = (h, key({"k": "i", "id": d["id"]}, h))
                if k in keys: rep[d["id"]] = keys[k]
                else: keys[k] = d["id"]
    f._same_loads = rep
    return rep


class Bounds:
    def __init__(self, I, extra=(), wraps=()):
        self.wraps, self.nonneg = wraps, {}
        self.I, self.cache, self.extra = I, {}, list(extra)
        self.rep, self.memo = same_loads(I.fn, I.pts), {}
        self.by_id, self.chosen = {}, {}
        for h in I.loops:
            for i in I.fn.blocks[h]:
                if i["op"] == "phi": self.by_id[i["id"]] = (h, i)

    def canon(self, x):
        """The term or condition with loads of the same place identified."""
        if not self.rep: return x
        def f(a): return t.at("ld", a.args[0], self.rep[a.args[1]]) if a.kind == "ld" and a.args[0] == self.I.fid and a.args[1] in self.rep else None
        if isinstance(x, t.Cond):
            return t.subst(x, f, self.memo) if any(f(a) is not None for a in t.atoms_in(x)) else x
        return t.subst(x, f, self.memo)

    def facts(self, facts, wrapping=False):
        """Facts with loads identified.  An unsigned comparison of a difference says nothing if the difference may wrap around;
        such comparisons are left out where the kinds of quantities in question are named (wraps)."""
        out = {}
        for k, v in facts.items():
            c = self.canon(t.cond(k, v))
            if c is not t.TRUE and (wrapping or not self.wraps or self.wrapped(t.cond(k, v), facts) is None): out[c.key] = c.pos
        return out

    def wrapped(self, c, facts):
        """An operand of the comparison that is not known to be at least 0, if that matters."""
        for pair in self.I.cmps.get(c.key, ()):
            bad = None
            for x in pair:
                if x.m and (x.c < 0 or any(v < 0 for v in x.m.values())) and any(a.kind in self.wraps or a.kind == "arg" and a.args[0] in self.wraps for a in x.m):
                    rest = frozenset((k, v) for k, v in facts.items() if k != c.key)
                    if (x, rest) not in self.nonneg:
                        g = neg(t.ult(x, const(0), True))
                        self.nonneg[x, rest] = prove(g, self.extra, dict(rest)) or prove(g, [a for a in self.start(x)], dict(rest))
                    if not self.nonneg[x, rest]: bad = x; break
            if bad is None: return None
        return bad if self.I.cmps.get(c.key) else None

    def start(self, x):
        """Loop-carried and joined lengths and positions are not negative."""
        return [neg(t.ult(t.mk(0, {a: 1}), const(0), True)) for a in x.m if a.kind in ("phi", "j")]

    def phis(self, h): return {t.atom("phi", self.I.fid, i): i for i in self.by_id if self.by_id[i][0] == h}

    def sources(self, a):
        """[(value, facts)] of a merged value, or None."""
        I = self.I
        if a.kind == "j":
            s = I.joins.get(a)
            return s and [(self.canon(v), self.facts(fx)) for v, fx in s]
        if a.kind != "phi" or a.args[0] != I.fid or a.args[1] not in self.by_id: return None
        h, i = self.by_id[a.args[1]]; out = []
        for vals, facts in I.entries.get(h, []): out.append((vals.get(i["id"]), facts))
        for lb, ls in I.latch_states.get(h, []):
            v = next((I.val(ls, o) for o, pb in i["in"] if pb == lb), None)
            out.append((v, ls.facts))
        return out if out and all(isinstance(v, Term) for v, _ in out) else None

    def closure(self, atoms):
        todo, out = list(atoms), {}
        while todo:
            a = todo.pop()
            if a in out or a.kind not in ("phi", "j"): continue
            s = self.sources(a)
            if s is None: continue
            s = [(self.canon(v), self.facts(fx)) for v, fx in s] if a.kind == "phi" else s
            out[a] = s
            if len(out) > 10: return None
            for v, _ in s: todo += [x for x in t.atoms_in(v) if x not in out]
        return out

    def bounds(self, atoms):
        """Conditions that always hold for the merged values among the atoms and those they are computed from."""
        key = frozenset(a for a in atoms if a.kind in ("phi", "j"))
        if not key: return []
        if key in self.cache: return self.cache[key]
        vs = self.closure(key)
        if not vs: self.cache[key] = []; return []
        cand = set()
        for a, s in vs.items():
            T = t.mk(0, {a: 1})
            cand.add((a, neg(t.ult(T, const(0), True))))
            for k in set(CONSTS) | {v.c for v, _ in s if not v.m and 0 <= v.c < 1 << 20}: cand.add((a, neg(t.ult(const(k), T, True))))
        ch = True
        while ch and cand:
            ch = False
            for a, c in sorted(cand, key=lambda x: x[1].n):
                if (a, c) not in cand: continue
                # a weaker bound than one that still stands needs no check of its own
                for v, facts in vs[a]:
                    g = t.subst(c, lambda x: v if x is a else None)
                    if g is t.TRUE: continue
                    hyp = [x for _, x in cand if t.atoms_in(x) & t.atoms_in(g)]
                    if not prove(g, hyp + self.extra, facts): cand.discard((a, c)); ch = True; break
        self.cache[key] = out = [c for _, c in cand]
        return out


def prove(goal, hyp, facts):
    if goal is t.TRUE: return True
    if goal is t.FALSE: return False
    return lin.Prover([t.cond(k, v) for k, v in facts.items()], first=hyp).proves(goal)


def within(y, lo, hi, st, B, extra=(), facts=None):
    """Is lo <= y < hi (None: no upper bound) shown in this state?"""
    y = B.canon(y); facts = st.facts if facts is None else facts
    goals = ([t.ult(y, const(hi), True)] if hi is not None else []) + [neg(t.ult(y, const(lo), True))]
    goals = [g for g in goals if not prove(g, [], {})]
    if not goals: return True
    facts = B.facts(facts)
    goals = [g for g in goals if not prove(g, extra, facts)]
    if not goals: return True
    hyp = B.bounds(t.atoms_in(y)) + list(extra)
    goals = [g for g in goals if not prove(g, hyp, facts)]
    for group in st.alts[::-1]:
        alts = [B.facts(x) for x in group]
        goals = [g for g in goals if not all(prove(g, hyp, {**facts, **x}) for x in alts)]
    return not goals


# ------------------------------------------------------------------ refuting
DEADLINE = 300.0     # seconds of computing after which nothing more is refuted


KNOWN = object()


def once(ctx, place, op, refute):
    """Refute at a source line until that succeeded once (then KNOWN)."""
    n = ctx.__dict__.setdefault("_refuted", {})
    if n.get(place) is True: return KNOWN
    v = refute(); n[place, op] = n.get((place, op), 0) + 1
    if v is not None: n[place] = True
    return v


def given_up(ctx, place, op):
    """Was a source line settled (violated), or left open often enough in this operation?"""
    n = ctx.__dict__.get("_refuted", {})
    return n.get(place) is True or n.get((place, op), 0) >= (8 if op == "c_create" else 4)


def worlds(B, block, about, facts, limit=120):
    """Ways to reach a block on the first or second round of the loops around it, leaving loops passed before after no round:
    [(terms, conditions)] with the merged values replaced by what they are there.  Nothing is yielded for merged values the
    analysis has no sources of."""
    I = B.I; around = I.inloop.get(block, set()); todo = [([B.canon(x) for x in about], [], list(facts))]
    while todo and limit > 0 and time.process_time() < DEADLINE:
        limit -= 1
        about, rel, facts = todo.pop()
        known, old = {}, {c.key for c in rel}
        if any(c is t.FALSE or known.setdefault(c.key, c.pos) != c.pos for c in rel + facts if c is not t.TRUE): continue
        more, rest = related(about + rel, [t.cond(k, v) for k, v in known.items() if k not in old], B)
        rel = [c for c in rel if c is not t.TRUE] + more
        pick = next((a for x in about + rel for a in outer(x) if a.kind == "ite" and unsettled(a, I)), None)
        if pick is not None and pick.args[0].key not in I.cjoins:
            # the two sides of a selection are settled apart, they come from different paths
            for c, v in ((pick.args[0], t.TRUE), (t.neg(pick.args[0]), t.FALSE)):
                m = {pick.args[0].key: v if pick.args[0].pos else t.neg(v)}; put = lambda x: t.subst_cond(x, m)
                todo.append(([put(x) for x in about], [put(x) for x in rel], [put(x) for x in rest] + [c]))
            continue
        keys = {pick.args[0].key} if pick is not None else {c.key for x in about + rel for c in t.conds_in(x) if c.key in I.cjoins}
        if keys:
            k = min(keys, key=str)
            for v, fx in I.cjoins[k]:
                if v.key == k: continue
                m = {k: v}; put = lambda x: t.subst_cond(x, m)
                todo.append(([put(x) for x in about], [put(c) for c in rel], [put(c) for c in rest] + conds(fx)))
            continue
        ats = [a for x in about + rel for a in sorted(t.atoms_in(x), key=lambda a: a.n) if a.kind in ("phi", "j") and a.args[0] == I.fid]
        if not ats: yield about, rel; continue
        for m, new in choices(B, ats[0], around):
            put = lambda x: t.subst(x, m.get)
            todo.append(([put(x) for x in about], [put(c) for c in rel], [put(c) for c in rest] + new))


def outer(x):
    if isinstance(x, Term): return sorted(x.m, key=lambda a: a.n)
    return [a for y in x.key[1:] if isinstance(y, Term) for a in outer(y)]


def unsettled(a, I):
    return any(c.key in I.cjoins for x in a.args for c in t.conds_in(x)) or any(b.kind in ("phi", "j") and b.args[0] == I.fid for x in a.args[1:] for b in t.atoms_in(x))


def conds(facts): return [t.cond(k, v) for k, v in facts.items()]


def related(about, facts, B):
    """(the conditions connected with the terms by what they mention, the others); values a loop carries together are connected."""
    rel = set(); use, rest, ch = [], list(facts), True

    def note(x):
        for a in t.atoms_in(x):
            # what was fixed before the operation began connects nothing
            if a.kind in ("phi", "j", "v", "ld") and a.args[0] != B.I.fid: continue
            rel.add(a)
            if a.kind == "phi" and a.args[0] == B.I.fid and a.args[1] in B.by_id: rel.update(B.phis(B.by_id[a.args[1]][0]))
    for x in about: note(x)
    while ch:
        ch = False
        for c in list(rest):
            if t.atoms_in(c) & rel or not t.atoms_in(c): use.append(c); rest.remove(c); note(c); ch = True
    return use, rest


def offset(v): return v if isinstance(v, Term) else getattr(v, "off", None)


def choices(B, a, around):
    """[({atom: value}, conditions that hold with it)] of a merged value."""
    if (a, frozenset(around)) not in B.chosen: B.chosen[a, frozenset(around)] = choices_(B, a, around)
    return B.chosen[a, frozenset(around)]


def choices_(B, a, around):
    I = B.I; out = []
    if a.kind == "j":
        for v, fx in I.joins.get(a, []):
            if v.m.get(a): continue
            m = {a: B.canon(v)}
            for b, s in I.joins.items():
                if b is not a and b.args[:2] == a.args[:2]:
                    for w, fy in s:
                        if fy is fx and not w.m.get(b): m[b] = B.canon(w)
            # a loop left before is left without a round
            if any(x.kind == "phi" and x.args[1] in B.by_id and B.by_id[x.args[1]][0] not in around and not B.by_id[x.args[1]][0] == a.args[1] for w in m.values() for x in t.atoms_in(w)) and a.args[1] not in around: continue
            out.append((m, [B.canon(c) for c in conds(fx)]))
        return out
    if a.args[0] != I.fid or a.args[1] not in B.by_id: return out
    h = B.by_id[a.args[1]][0]
    phis = B.phis(h)
    first = []
    for vals, fx in I.entries.get(h, []):
        m = {x: B.canon(offset(vals.get(i))) for x, i in phis.items() if offset(vals.get(i)) is not None}
        if a in m: first.append((m, [B.canon(c) for c in conds(fx)]))
    if h in around:
        body = {d["id"] for b in I.loops[h] for d in I.fn.blocks[b]}
        local = lambda c: [x for x in t.atoms_in(c) if x not in phis and len(x.args) > 1 and x.args[0] == I.fid and (x.args[1] in body or x.kind == "j")]
        for lb, ls in I.latch_states.get(h, []):
            w = {}
            for x, i in phis.items():
                v = offset(next((I.val(ls, o) for o, pb in B.by_id[i][1]["in"] if pb == lb), None))
                if v is not None and not local(B.canon(v)): w[x] = B.canon(v)
            if a not in w: continue
            fx = [B.canon(c) for c in conds(ls.facts)]
            fx = [c for c in fx if c.key[0] not in ("v", "join") and not local(c)]
            for m, fe in first:
                put = lambda x: t.subst(x, m.get)
                out.append(({x: put(v) for x, v in w.items()}, fe + [put(c) for c in fx]))
    return first + out
