"""Canonical integer terms: linear sums over opaque atoms, with the arithmetic the size computations use
(division, remainder and rounding by powers of two, two-way choices).  Terms are mathematical integers: the analysis
assumes sizes and cursors do not wrap around."""

_atoms, _terms, _conds = {}, {}, {}


class Atom:
    __slots__ = ("kind", "args", "n")

    def __repr__(self): return show_atom(self)


def atom(kind, *args):
    k = (kind,) + args
    a = _atoms.get(k)
    if a is None:
        a = Atom(); a.kind, a.args, a.n = kind, args, len(_atoms)
        _atoms[k] = a
    return a


class Term:
    __slots__ = ("c", "m", "n")

    def __repr__(self): return show(self)


def mk(c, m):
    items = tuple(sorted(((a, k) for a, k in m.items() if k), key=lambda x: x[0].n))
    key = (c, items)
    t = _terms.get(key)
    if t is None:
        t = Term(); t.c, t.m, t.n = c, dict(items), len(_terms)
        _terms[key] = t
    return t


def const(c): return mk(c, {})
def at(kind, *args): return mk(0, {atom(kind, *args): 1})
def isc(t): return isinstance(t, Term) and not t.m


def add(a, b, k=1):
    m = dict(a.m)
    for x, v in b.m.items(): m[x] = m.get(x, 0) + k * v
    return mk(a.c + k * b.c, m)


def sub(a, b): return add(a, b, -1)


def scale(a, k):
    m, more = {}, None
    for x, v in a.m.items():
        v *= k
        if x.kind == "exact" and v % x.args[1] == 0:      # a quotient without remainder, multiplied out again
            y = scale(x.args[0], v // x.args[1]); more = y if more is None else add(more, y)
        else: m[x] = v
    r = mk(a.c * k, m)
    return r if more is None else add(r, more)


def exact(t, k):
    """t / k where the program guarantees that nothing remains."""
    return div(t, k) if divisible(t, k) or not t.m else at("exact", t, k)


def mul(a, b):
    if not a.m: return scale(b, a.c)
    if not b.m: return scale(a, b.c)
    x, y = sorted((a, b), key=lambda t: t.n)
    return at("mul", x, y)


def div_atom(x, k):
    """Is this atom known to be a multiple of k?"""
    if x.kind == "up": return x.args[1] % k == 0
    if x.kind == "base": return 16 % k == 0
    if x.kind == "ite": return all(divisible(t, k) for t in x.args[1:])
    return False


def divisible(t, k): return t.c % k == 0 and all(v % k == 0 or div_atom(x, k // gcd(v, k)) for x, v in t.m.items())


def gcd(a, b):
    a, b = abs(a), abs(b)
    while b: a, b = b, a % b
    return a


def split_div(t, k):
    """t = q*k-divisible part + rest."""
    d, r = {}, {}
    for x, v in t.m.items(): (d if v % k == 0 or div_atom(x, k // gcd(v, k)) else r)[x] = v
    return d, r


def up(t, k):
    """t rounded up to a multiple of k."""
    d, r = split_div(t, k)
    if not r: return mk(-(-t.c // k) * k, d)
    c0 = t.c % k
    return add(mk(t.c - c0, d), at("up", mk(c0, r), k))


def rem(t, k):
    if k == 1: return const(0)
    if not t.m: return const(t.c % k)
    d, r = split_div(t, k)
    if not r: return const(t.c % k)
    x = mk(t.c % k, r)
    if x.c == 0 and len(r) == 1:
        (a, v), = r.items()
        if v == 1 and a.kind == "rem" and a.args[1] % k == 0: return rem(a.args[0], k)
        if v == 1 and a.kind == "rem" and k % a.args[1] == 0: return x
        if v == 1 and a.kind == "ite": return ite(a.args[0], rem(a.args[1], k), rem(a.args[2], k))
    return at("rem", x, k)


def down(t, k):
    """t rounded down to a multiple of k; (x + k-1) rounded down is x rounded up."""
    d, r = split_div(t, k)
    if not r: return mk(t.c // k * k, d)
    return up(add(t, const(k - 1), -1), k)


def div(t, k):
    if k == 1: return t
    if not t.m: return const(t.c // k)
    # exact part: coefficients divisible by k
    q, r = {}, {}
    for x, v in t.m.items():
        if v % k == 0: q[x] = v // k
        else: r[x] = v
    qc, rc = divmod(t.c, k)
    if not r: return mk(qc, q)
    rest = mk(rc, r)
    if divisible(rest, k):
        return add(mk(qc, q), mul_frac(rest, k))
    if rc == 0 and len(r) == 1:
        (x, v), = r.items()
        if v == 1 and x.kind == "div": return add(mk(qc, q), div(x.args[0], x.args[1] * k))
        if v == 1 and x.kind == "rem" and x.args[1] <= k: return mk(qc, q)
        if v == 1 and x.kind == "ite": return add(mk(qc, q), ite(x.args[0], div(x.args[1], k), div(x.args[2], k)))
        g = gcd(v, k)
        if g > 1: return add(mk(qc, q), div(mk(0, {x: v // g}), k // g))
    # the rounding-up quotient: floor((x + k-1)/k) is up(x,k)/k
    return add(mk(qc, q), at("div", rest, k))


def mul_frac(t, k):
    """t/k for t known divisible by k term-wise."""
    m = {}
    out = const(t.c // k)
    for x, v in t.m.items():
        if v % k == 0: m[x] = v // k
        elif x.kind == "up": out = add(out, scale(div(add(x.args[0], const(x.args[1] - 1)), x.args[1]), v * x.args[1] // k))
        elif x.kind == "ite": out = add(out, ite(x.args[0], mul_frac(scale(x.args[1], v), k), mul_frac(scale(x.args[2], v), k)))
        else: out = add(out, scale(at("exact", mk(0, {x: 1}), k), v))
    return add(out, mk(0, m))


# ---- conditions: (pred, Term, ...) with a polarity
class Cond:
    __slots__ = ("key", "pos", "n")

    def __repr__(self): return ("" if self.pos else "!") + "%s" % (self.key,)


def cond(key, pos=True):
    c = _conds.get((key, pos))
    if c is None:
        c = Cond(); c.key, c.pos, c.n = key, pos, len(_conds)
        _conds[(key, pos)] = c
    return c


TRUE, FALSE = cond(("true",)), cond(("true",), False)


def neg(c): return cond(c.key, not c.pos)


def eq(a, b):
    d = sub(a, b)
    if not d.m: return TRUE if d.c == 0 else FALSE
    if len(d.m) == 1:
        (x, v), = d.m.items()
        if x.kind == "ite":
            p, q = eq(scale(x.args[1], v), const(-d.c)), eq(scale(x.args[2], v), const(-d.c))
            if p is TRUE and q is FALSE: return x.args[0]
            if p is FALSE and q is TRUE: return neg(x.args[0])
            if p is q and p in (TRUE, FALSE): return p
        if d.c % v: return FALSE
        if x.kind == "rem" and not 0 <= -d.c // v < x.args[1]: return FALSE
        if abs(v) != 1: d = mk(d.c // v, {x: 1})
    lead = min(d.m, key=lambda x: x.n)
    if d.m[lead] < 0: d = scale(d, -1)
    return cond(("eq", d))


def ult(a, b, signed=False):
    if not a.m and not b.m: return TRUE if a.c < b.c else FALSE
    if a is b: return FALSE
    d = sub(b, a)
    if not d.m: return TRUE if d.c > 0 else FALSE
    if not signed and not b.m and b.c <= 0: return FALSE
    if not signed and not a.m and a.c == 0: return neg(eq(b, const(0)))
    if not signed and not b.m and b.c == 1: return eq(a, const(0))
    if not b.m and len(a.m) == 1 and a.c == 0:
        (x, v), = a.m.items()
        if x.kind == "rem" and v > 0 and (x.args[1] - 1) * v < b.c: return TRUE
    return cond(("lt", d))


def ite(c, a, b):
    if c is TRUE: return a
    if c is FALSE: return b
    if a is b: return a
    if not c.pos: c, a, b = neg(c), b, a
    # common part first
    m = {x: v for x, v in a.m.items() if b.m.get(x) == v}
    base = mk(min(a.c, b.c), m)
    a, b = sub(a, base), sub(b, base)
    # rounding up written out: x % k == 0 ? 0 : 1  is  ceil(x/k) - floor(x/k)
    if c.key[0] == "eq" and a is const(0) and not b.m:
        d = c.key[1]
        if len(d.m) == 1 and d.c == 0:
            (x, v), = d.m.items()
            if x.kind == "rem":
                t, k = x.args
                return add(base, scale(sub(div(add(t, const(k - 1)), k), div(t, k)), b.c))
    if not b.m and not a.m: return add(base, add(b, scale(at("ite", c, const(1), const(0)), a.c - b.c)))
    return add(base, at("ite", c, a, b))


_in = {}


def atoms_in(t):
    """The atoms a term or condition is made of, at any depth."""
    out = _in.get(t)
    if out is None:
        out = set()
        for x in (t.key[1:] if isinstance(t, Cond) else [x for a in t.m for x in (a,) + a.args]):
            if isinstance(x, Atom): out.add(x)
            elif isinstance(x, (Term, Cond)): out |= atoms_in(x)
        out = _in[t] = frozenset(out)
    return out


DERIVED = {"up", "rem", "div", "ite", "mul", "exact", "and", "or", "xor", "lshr", "shl", "ashr", "udiv", "urem", "sdiv", "srem", "trunc"}


def base(t):
    """The quantities a term is computed from (no derived atoms)."""
    return {a for a in atoms_in(t) if a.kind not in DERIVED}


def bits(k, x, y):
    """A bit operation on terms, folded where that is possible."""
    if k in ("and", "or", "xor"):
        if x.n > y.n: x, y = y, x
        for p, q in ((x, y), (y, x)):
            if not p.m and p.c == 0: return p if k == "and" else q
        if not x.m and not y.m: return const({"and": x.c & y.c, "or": x.c | y.c, "xor": x.c ^ y.c}[k])
    elif not y.m and 0 <= y.c < 64:
        return scale(x, 1 << y.c) if k == "shl" else div(x, 1 << y.c)
    return at(k, x, y)


def conds_in(t):
    """Conditions a term or condition consists of."""
    out = [t] if isinstance(t, Cond) else []
    for a in atoms_in(t): out += [x for x in a.args if isinstance(x, Cond)]
    return out


def subst_cond(t, m):
    """Rebuild t with conditions replaced."""
    put = lambda c: (m[c.key] if c.pos else neg(m[c.key])) if c.key in m else subst_cond(c, m)
    if isinstance(t, Cond):
        if t.key in m: return put(t)
        k = t.key
        if k[0] == "eq": r = eq(subst_cond(k[1], m), const(0))
        elif k[0] == "lt": r = ult(const(0), subst_cond(k[1], m), True)
        else: return t
        return r if t.pos else neg(r)
    if not any(c.key in m for c in conds_in(t)): return t
    return subst(t, lambda a: ite(put(a.args[0]), subst_cond(a.args[1], m), subst_cond(a.args[2], m)) if a.kind == "ite" else None)


def subst(t, f, memo=None):
    """Rebuild t with f(atom) -> Term or None."""
    if memo is None: memo = {}
    if isinstance(t, Cond):
        k = t.key
        if k[0] == "eq": r = eq(subst(k[1], f, memo), const(0))
        elif k[0] == "lt": r = ult(const(0), subst(k[1], f, memo), True)
        else: return t
        return r if t.pos else neg(r)
    if t in memo: return memo[t]
    out = const(t.c)
    for a, v in t.m.items():
        r = f(a)
        if r is None:
            if a.kind == "up": r = up(subst(a.args[0], f, memo), a.args[1])
            elif a.kind == "rem": r = rem(subst(a.args[0], f, memo), a.args[1])
            elif a.kind == "exact": r = exact(subst(a.args[0], f, memo), a.args[1])
            elif a.kind == "div": r = div(subst(a.args[0], f, memo), a.args[1])
            elif a.kind == "ite": r = ite(subst(a.args[0], f, memo), subst(a.args[1], f, memo), subst(a.args[2], f, memo))
            elif a.kind == "mul": r = mul(subst(a.args[0], f, memo), subst(a.args[1], f, memo))
            elif a.kind in ("and", "or", "xor", "shl", "lshr") and len(a.args) == 2 and all(isinstance(x, Term) for x in a.args): r = bits(a.kind, subst(a.args[0], f, memo), subst(a.args[1], f, memo))
            elif a.kind in ("cm", "klen"): r = at(a.kind, *[subst(x, f, memo) if isinstance(x, Term) else x for x in a.args])
            else: r = mk(0, {a: 1})
        out = add(out, r, 1) if v == 1 else add(out, scale(r, v))
    memo[t] = out
    return out


def show(t):
    if isinstance(t, Cond): return repr(t)
    if not isinstance(t, Term): return str(t)
    p = []
    for a, v in t.m.items():
        s = show_atom(a)
        p.append(s if v == 1 else "%d*%s" % (v, s))
    if t.c or not p: p.append(str(t.c))
    return " + ".join(p)


def show_atom(a):
    if a.kind == "up": return "align%d(%s)" % (a.args[1], show(a.args[0]))
    if a.kind == "rem": return "(%s %% %d)" % (show(a.args[0]), a.args[1])
    if a.kind == "div": return "(%s / %d)" % (show(a.args[0]), a.args[1])
    if a.kind == "ite": return "(%r ? %s : %s)" % (a.args[0], show(a.args[1]), show(a.args[2]))
    return "%s%s" % (a.kind, list(a.args) if a.args else "")


# ---- deciding relations between terms over all values of their atoms
import hashlib


class Val:
    """One assignment of values to atoms, chosen lazily from a seed."""
    SMALL = (0, 1, 2, 3, 5, 7, 8, 9, 13, 16, 31, 33, 63, 64, 65, 100, 127, 128, 257, 511, 512, 513, 1000, 1023, 1025, 4097, 9999)

    LARGE = (65534, 65535, 65536, 65537, 70001, 131072, 1 << 20, (1 << 24) + 3)        # beyond what 16 or 20 bits hold

    def __init__(self, seed, fixed=None): self.seed, self.v, self.b, self.inexact, self.mult = seed, dict(fixed or {}), {}, False, {}

    def h(self, k): return int.from_bytes(hashlib.blake2b(("%d/%s" % (self.seed, k)).encode(), digest_size=6).digest(), "big")

    def atom(self, a):
        if a in self.v: return self.v[a]
        k, g = a.kind, a.args
        r = None
        if k in ("up", "rem", "div", "exact") and isinstance(g[0], Term):
            x = self.term(g[0])
            if k == "exact" and x % g[1]: self.inexact = True
            r = {"up": lambda: -(-x // g[1]) * g[1], "rem": lambda: x % g[1], "div": lambda: x // g[1], "exact": lambda: x // g[1]}[k]()
        elif k == "ite": r = self.term(g[1]) if self.cond(g[0]) else self.term(g[2])
        elif k == "mul": r = self.term(g[0]) * self.term(g[1])
        elif k in ("and", "or", "xor", "shl", "lshr", "ashr", "udiv", "sdiv", "urem", "srem") and len(g) == 2 and all(isinstance(x, Term) for x in g):
            x, y = self.term(g[0]), self.term(g[1])
            r = {"and": lambda: x & y, "or": lambda: x | y, "xor": lambda: x ^ y, "shl": lambda: x << (y % 64), "lshr": lambda: x >> (y % 64),
                 "ashr": lambda: x >> (y % 64), "udiv": lambda: x // (y or 1), "sdiv": lambda: x // (y or 1), "urem": lambda: x % (y or 1), "srem": lambda: x % (y or 1)}[k]()
        elif k == "trunc" and isinstance(g[0], Term): r = self.term(g[0]) % (1 << int(g[1][1:]))
        elif k == "base": r = self.h(a.n) % 1000 * 16 + 1 << 20
        if r is None and k == "arg" and g and g[0] in ("hlen", "rlen"):
            # suffix lengths, in the documented range: together at most 64 bits
            m = self.h("len") % 5
            r = (64, 0) if m == 0 else (0, 64) if m == 1 else (self.h("hl") % 33, self.h("rl") % 33)
            r = r[g[0] == "rlen"]
        if r is None:
            x = self.h(a.n)
            r = x % 2 if self.seed % 4 == 3 and k in ("v", "ld", "cm") else (self.LARGE[x % len(self.LARGE)] if self.seed % 8 == 5 and x % 3 else self.SMALL[x % len(self.SMALL)] if self.seed % 3 else x // 7 % 3000) * self.mult.get(a, 1)
        self.v[a] = r
        return r

    def term(self, t):
        r = t.c
        for a, k in t.m.items(): r += k * self.atom(a)
        return r

    def cond(self, c):
        if c is TRUE: return True
        if c is FALSE: return False
        k = c.key
        if k[0] == "eq": r = self.term(k[1]) == 0
        elif k[0] == "lt": r = 0 < self.term(k[1])
        elif k[0] == "and": r = self.cond(k[1]) and self.cond(k[2])
        elif k[0] == "bool" and isinstance(k[1], Term): r = self.term(k[1]) != 0
        elif k[0] == "true": r = True
        else:
            if k not in self.b: self.b[k] = self.h(repr(k)) % 2 == 0
            r = self.b[k]
        return r == c.pos


def valuations(facts, about, n=40, nonneg=()):
    """Assignments consistent with the path facts that mention any atom of the terms in question."""
    rel = set()
    for x in about:
        if x is not None: rel |= atoms_in(x)
    use, ch = [], True
    rest = [cond(k, v) for k, v in (facts or {}).items()]
    while ch:
        ch = False
        for c in list(rest):
            a = atoms_in(c)
            if a & rel or not a: use.append(c); rest.remove(c); rel |= a; ch = True
    # equalities of one free atom fix it
    fixed = {}
    for c in use:
        if c.key[0] == "eq" and c.pos:
            d = c.key[1]
            for a, k in d.m.items():
                if abs(k) == 1 and a not in fixed and a.kind not in ("up", "rem", "div", "ite", "mul"):
                    rest_ = sub(d, mk(0, {a: k}))
                    if a not in atoms_in(rest_): fixed[a] = scale(rest_, -k); break
    mult = {}
    for a in rel:
        if a.kind == "exact":
            for b in base(a.args[0]): mult[b] = max(mult.get(b, 1), a.args[1])
    out = []
    for s in range(n * 40):
        v = Val(s); v.mult = mult
        bad = False
        for a, e in fixed.items():
            if a not in v.v:
                v.v[a] = 0
                v.v[a] = v.term(e) if not atoms_in(e) & set(fixed) else v.term(e)
        if not all(v.cond(c) for c in use) or not all(v.term(x) >= 0 for x in nonneg): continue
        for x in about: v.term(x) if isinstance(x, Term) else None
        if not v.inexact: out.append(v)
        if len(out) >= n: break
    return out


def same(a, b, facts=None, nonneg=()):
    """True: equal for every assignment tried (or syntactically); a Val where they differ; None if no assignment satisfies the facts."""
    if a is b: return True
    vs = valuations(facts, [a, b], 40, [a, b] + list(nonneg))
    if not vs: return None
    for v in vs:
        if v.term(a) != v.term(b): return v
    return True
