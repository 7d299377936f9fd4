"""Bounds of key reads.  Queries are interpreted with a key that is an unknown string of unknown length, and construction with
an unknown array of such strings (caller memory that nothing writes: the same address always holds the same value).  At every
load or block read of a string's characters, the offset is a term over levels and lengths; the branch conditions and the
loop invariants there must imply that it lies before the string's length."""
import itertools
import api, life, absint, inv, terms as t
from absint import Ptr, Obj, ConstObj, const
from terms import sub, add
import checks.c08 as c08

STR = 32


def string(name):
    """A std::string: characters, length."""
    o = ConstObj(name); d = ConstObj("characters of " + name); d.length = t.at("arg", "length of " + name)
    o.fields = {0: Ptr(d, const(0)), 8: d.length}
    return o


def strings(name):
    """A vector of strings."""
    arr = ConstObj("elements of " + name)

    def elem(self, off, ty):
        r = t.rem(off, STR)
        if r.m: return None
        base = sub(off, r)
        if base not in self.kids:
            d = ConstObj("characters of %s[%r]" % (name, t.div(base, STR))); d.length = t.at("klen", self.n, base)
            self.kids[base] = d
        d = self.kids[base]
        return Ptr(d, const(0)) if r.c == 0 and ty == "ptr" else d.length if r.c == 8 and ty != "ptr" else None
    arr.elem = elem
    n = t.at("arg", "number of " + name)
    o = ConstObj(name); o.fields = {0: Ptr(arr, const(0)), 8: Ptr(arr, t.scale(n, STR)), 16: Ptr(arr, t.scale(n, STR))}
    return o


class recorder:
    """Collects (interpreter, instruction, characters, offset, length of the read, state)."""

    def __enter__(self):
        I = absint.Interp; self.old = I.load, I.call, I.PTRPHI; self.rec = rec = []; self.seen = seen = set()
        load, call = I.load, I.call; I.PTRPHI = True

        def hload(self, st, p, i):
            if isinstance(p, Ptr):
                seen.add(i["id"])
                if hasattr(p.obj, "length"): rec.append((self, i, p.obj, p.off, const(i["sz"]), st))
            return load(self, st, p, i)

        def hcall(self, st, i, b):
            for k, n in reads(i):
                v = self.val(st, i["ops"][k])
                if isinstance(v, Ptr):
                    seen.add(i["id"])
                    if hasattr(v.obj, "length"):
                        z = self.asint(self.val(st, i["ops"][n])) if n is not None else None
                        rec.append((self, i, v.obj, v.off, z, st))
            return call(self, st, i, b)
        I.load, I.call = hload, hcall
        return self

    def __exit__(self, *a):
        I = absint.Interp; I.load, I.call, I.PTRPHI = self.old


def reads(i):
    """[(pointer operand, length operand or None if unknown)] of the memory a call reads."""
    fn = i.get("fn") or ""
    if fn.startswith(("llvm.memcpy", "llvm.memmove")) or fn in ("memcpy", "memmove"): return [(1, 2)]
    if fn in ("memcmp", "bcmp", "_ZNSt11char_traitsIcE7compareEPKcS2_m"): return [(0, 2), (1, 2)]
    if fn == "memchr": return [(0, 2)]
    if fn.startswith("llvm.") or fn.startswith("_ZNKSt7__cxx1112basic_string") and not i.get("aty"): return []
    return []


def run(ctx):
    ctx.level = "proof"
    ctx.rule("at every read of a key's characters: branch conditions and loop invariants imply 0 <= offset and offset + width <= length")
    ctx.assume += ["keys to build from are not empty, sorted and distinct", "hash length + real length <= 64", "lengths and positions do not wrap around (C38)"]
    ctx.trusted.append("std::string members given a string (not a character pointer) stay within it")
    ops = {}
    for ty in life.KINDS:
        held = {}

        def asserted(k):
            # what the precondition (sorted, distinct keys) has to give is stated by the source's own assertions
            if not held:
                for x, ok in verdicts(create(ty, True), True): held[x] = held.get(x, True) and ok
            if not held.get(k): return False
            if "%s:%d" % k not in ctx.cover.setdefault("reads that rely on an asserted precondition", []): ctx.cover["reads that rely on an asserted precondition"].append("%s:%d" % k)
            return True
        for k, text in judge(ctx, "c_create", create(ty, False), ops, nonempty=True, assumed=asserted): ctx.undec("read at %s:%d" % k, text)
        for l in life.built(ty):
            for n in [x for x in api.ROLES if x[:2] in ("q_", "i_") and "key" in api.ROLES[x].values()]:
                with recorder() as R: c08.interpret(l, n, lambda r, k: string("key%d" % k) if r == "key" else None)
                for k, text in judge(ctx, n, R, ops): ctx.undec("read at %s:%d" % k, text)
    places = {}
    for n, seen in ops.items():
        o = life.op(n)
        for i, T in o.p.loads():
            if i["ty"] != "ptr" and keychars(o, T):
                k = c08.place(o.f, i) if o.f.chain(i) else ("?", 0)
                places.setdefault(k, set()).add(i["id"] in seen)
        for i in o.f.insts():
            if i["op"] == "call":
                for k in unknown_readers(i):
                    if i["ops"][k]["k"] == "i" and keychars(o, o.p.val(i["ops"][k])): ctx.undec("call at %s:%d" % c08.place(o.f, i), "%s may read key characters" % i.get("fn"))
    for k, v in sorted(places.items()):
        if True not in v: ctx.undec("read at %s:%d" % k, "its address is not resolved")
    ctx.need(len(places), 3, "source lines reading key characters"); ctx.need(ctx.obligations, 20, "reads")
    ctx.cover["lines"] = ["%s:%d" % k for k in sorted(places)]


def keychars(o, T): return any(x[0] == "R" and x[2] == "key" and off is None for x, off in T)


def unknown_readers(i):
    """Pointer operands of calls that may read an unknown amount of characters."""
    fn = i.get("fn") or ""
    if fn.startswith("llvm.") or reads(i): return []
    if fn in ("strlen", "strcmp", "strncmp", "strchr"): return range(len(i["ops"]))
    return []


def create(ty, asserts):
    o = life.op("c_create", asserts=asserts); at = lambda n: t.at("arg", n)
    with recorder() as R:
        o.run([Ptr(strings("keys"), const(0)), t.cond(("arg", "dense")), at("ratio"), const(ty), at("hlen"), at("rlen")], "k%d%d" % (ty, asserts), facts=c08.lengths(ty))
    return R


def inside(I, o, off, z, st, extra):
    if not hasattr(I, "B"): I.B = inv.Bounds(I, wraps=lengths(o))
    return inv.within(sub(o.length, add(off, z)), 0, None, st, I.B, extra) and inv.within(off, 0, None, st, I.B, extra)


def verdicts(R, nonempty):
    for I, i, o, off, z, st in R.rec:
        yield c08.place(I.fn, i), isinstance(z, t.Term) and inside(I, o, off, z, st, [t.ult(const(0), o.length)] if nonempty else [])


def judge(ctx, n, R, ops, nonempty=False, assumed=lambda k: False):
    """Reports violations; returns [(place, text)] of the reads that are neither shown nor refuted."""
    ops.setdefault(n, set()).update(R.seen); out = []
    for I, i, o, off, z, st in R.rec:
        k = c08.place(I.fn, i)
        extra = [t.ult(const(0), o.length)] if nonempty else []
        if not isinstance(z, t.Term): out.append((k, "of unknown length")); continue
        if inv.given_up(ctx, k, n): out.append((k, "not shown for other operations")); continue
        if inside(I, o, off, z, st, extra): ctx.ok("%s: %s[%r] at %s:%d" % (api.human(n), o.name, off, *k)); continue
        if assumed(k): ctx.ok(); continue
        v = inv.once(ctx, k, n, lambda: counterexample(I, i, st, o, off, z, extra))
        if v is inv.KNOWN: continue
        if v is not None: ctx.bad("%s reads past a key" % ir_name(I.fn, i), "%s: byte %d of a key of length %d is read" % (I.fn.loc(i), v[0], v[1]))
        else: out.append((k, "%s: offset %s" % (api.human(n), repr(off)[:200])))
    return out


def ir_name(f, i):
    import ir
    return next((x for x in [ir.short(c[2]) for c in f.chain(i)] if not x.startswith("std::")), "operation")


def counterexample(I, i, st, o, off, z, extra):
    """(offset, length) out of range, for some lengths, on the first or second round of the loops around the read."""
    y = sub(o.length, add(off, z)); B = I.B
    for group in itertools.islice(itertools.product(*st.alts), 48):
        whole = dict(st.facts)
        for g in group: whole.update(g)
        for facts in variants(B, whole):
            for (w, at_, L), cs in inv.worlds(B, I.fn.blk[i["id"]], [y, off, o.length], facts + list(extra)):
                if any(a.kind not in ("klen",) and not (a.kind == "arg" and isinstance(a.args[0], str)) for a in t.base(w)): continue
                if any(about_key(I, st, c) for c in cs): continue
                for v in t.valuations({c.key: c.pos for c in cs + increasing([w] + cs)}, [w, at_, L] + cs, 60, [L]):
                    if v.term(at_) < 0 or v.term(w) < 0: return v.term(at_), v.term(L)
    return None


def lengths(o):
    """Kinds and names of the atoms that are lengths of keys."""
    a = next(iter(o.length.m))
    return (a.kind,) if a.kind == "klen" else ("length of key0", "length of key1", "length of key2", "length of key3")


def variants(B, facts):
    """The facts as they are, and with a comparison of a difference that may wrap around true for that reason."""
    yield inv.conds(B.facts(facts, wrapping=True))
    for k, v in facts.items():
        c = t.cond(k, v); x = B.wrapped(c, facts) if B.wraps else None
        # a wrapped value is larger than anything else
        if x is not None and all((p[1] if c.pos else p[0]) is x for p in B.I.cmps[c.key]):
            yield inv.conds(B.facts({n: w for n, w in facts.items() if n != k}, wrapping=True)) + [B.canon(t.ult(x, const(0), True))]


def increasing(xs):
    """Keys whose lengths increase from one to the next are sorted and distinct in any case where they share their first characters."""
    ks = sorted({a for x in xs for a in t.atoms_in(x) if a.kind == "klen"}, key=lambda a: a.args[1].c); out = []
    for a in ks:
        out.append(t.ult(const(0), t.mk(0, {a: 1})))
        for b in ks:
            d = sub(b.args[1], a.args[1])
            if not d.m and d.c > 0: out.append(t.ult(t.mk(0, {a: 1}), t.mk(0, {b: 1}), True))
    return out


def about_key(I, st, c):
    """A condition the analysis cannot read and that may speak of the key: joined flags, and results of calls given a key."""
    if c.key[0] == "join" and c.key[1] == I.fid: return True
    todo = [c] if c.key[0] == "v" and c.key[1] == I.fid else []
    ids = [c.key[2]] if todo else []
    ids += [a.args[1] for a in t.atoms_in(c) if a.kind == "v" and a.args[0] == I.fid]
    seen = set()
    while ids:
        n = ids.pop()
        if n in seen or n not in I.fn.inst: continue
        seen.add(n); d = I.fn.inst[n]
        if d["op"] == "call":
            if any(x["k"] in ("i", "a") and isinstance(I.val(st, x), Ptr) and isinstance(I.val(st, x).obj, ConstObj) for x in d["ops"]): return True
        elif d["op"] in ("icmp", "zext", "sext", "trunc", "and", "or", "xor"): ids += [x["id"] for x in d["ops"] if x["k"] == "i"]
    return False
