"""Value-range analysis of shift counts.  Construction is interpreted for every suffix type, and every query and iterator
operation is interpreted on each filter construction can return; wherever a word is shifted by a computed count, the count is
recorded as a term over the inputs together with the branch conditions that hold there.  0 <= count < width is then a set of
linear inequalities refuted by Fourier-Motzkin elimination, with invariants for loop-carried values found by induction."""
import api, life, absint, inv, terms as t
from absint import Ptr, Obj, Cond, const
from terms import sub, add

LEN = 64


def run(ctx):
    ctx.level = "proof"
    ctx.rule("for every shift by a computed count: branch conditions and loop invariants imply 0 <= count < width")
    ctx.assume += ["hash length + real length <= 64, at least 1 for the parts the suffix type has", "signed and unsigned 32-bit position arithmetic does not wrap around (C38)"]
    seen, sites = {}, {}
    for ty in life.KINDS:
        with recorder() as rec: I, out = life.create(ty, "c8_%d" % ty, facts=lengths(ty))
        note(ctx, "c_create", rec, seen, ty)
        for n, (v, st) in enumerate(out):
            if not isinstance(v, Ptr): ctx.undec("filter built with " + life.KINDS[ty]); continue
            l = life.Life("built", ty, v, st, I)
            for n, rec in operations(l): note(ctx, n, rec, seen, ty)
    total = 0
    for n in [x for x in api.ROLES if x[:2] in ("q_", "i_")] + ["c_create"]:
        f = life.op(n).f
        for i in shifts(f):
            total += 1
            k = place(f, i)
            sites.setdefault(k, []).append((n, (n, i["id"]) in seen))
    missed = 0
    for k, v in sorted(sites.items()):
        if not any(x for _, x in v): ctx.undec("shift at %s:%d" % k, "not reached by the interpretation of " + ", ".join(sorted({a for a, _ in v}))); missed += 1
    ctx.need(total, 40, "shift instructions"); ctx.need(len(sites), 8, "source shifts"); ctx.cover["shift instructions never reached"] = missed
    ctx.cover["source lines with computed shifts"] = ["%s:%d" % k for k in sorted(sites)]


def lengths(ty):
    h, r = t.at("arg", "hlen"), t.at("arg", "rlen")
    c = [t.neg(t.ult(const(LEN), add(h, r)))]
    if ty == 1: c.append(t.ult(const(0), h))
    if ty == 2: c.append(t.ult(const(0), r))
    return {x.key: x.pos for x in c}


def shifts(f):
    return [i for i in f.insts() if i["op"] in ("shl", "lshr", "ashr") and i["ops"][1]["k"] != "c" and not library(f, i)]


def library(f, i):
    c = f.chain(i)
    return not c or "/c++/" in c[0][0]


def place(f, i):
    c = f.chain(i)[0]
    return c[0].split("/")[-1], c[1]


class recorder:
    """Collects (interpreter, instruction, count, state) of the shifts interpreted inside the block."""

    def __enter__(self):
        self.old = old = absint.Interp.arith; self.rec = rec = []

        def arith(I, st, i, op, ops):
            if op in ("shl", "lshr", "ashr") and ops[1]["k"] != "c" and not library(I.fn, i): rec.append((I, i, I.asint(I.val(st, ops[1])), st))
            return old(I, st, i, op, ops)
        absint.Interp.arith = arith
        return rec

    def __exit__(self, *a): absint.Interp.arith = self.old


def operations(l):
    """[(operation, recorded shifts)] of every query on the filter, and of every operation on an iterator of it."""
    for n in [x for x in api.ROLES if x[:2] in ("q_", "i_")]:
        if not shifts(life.op(n).f): continue
        with recorder() as rec: interpret(l, n)
        yield n, rec


def interpret(l, n, arg=lambda role, k: None, cell=None):
    """Run one operation on the filter (or on an iterator of it); other objects come from arg or are unknown."""
    o = life.op(n); roles = api.ROLES.get(n) or api.RAW[n]; heap = dict(l.heap); args = []
    for k, a in enumerate(o.f.args):
        if a["ty"] != "ptr": args.append(t.cond(("arg", k)) if a["ty"] == "i1" else t.at("arg", k)); continue
        if k == 0 and n[:2] in ("q_", "r_"): args.append(l.ptr); continue
        ob = arg(roles.get(k), k) or Obj("%s%d" % (roles.get(k, "arg"), k), "arg", const(512)); args.append(Ptr(ob, const(0)))
        if roles.get(k) == "iter": heap[ob] = iterator(l)
        if cell and cell(roles.get(k), k): heap[ob] = cell(roles.get(k), k)
    return o.run(args, n[0] + "8" + n, heap=heap, facts=l.facts)


def iterator(l):
    """An iterator of the filter: its pointers lead to the filter's parts, everything else is unknown."""
    c = absint.Cell(); objs = {}
    for o, (path, cls) in life.paths(l.heap, l.ptr).items():
        if cls: objs[cls] = o
    for off, sz, n, ty in life.leaves("surf::SuRF::Iter"):
        k = ty.replace("const ", "").rstrip("*").strip()
        if ty.endswith("*") and k in objs: c.f[off] = (8, Ptr(objs[k], const(0)))
    return c


def speculated(I, i, st):
    """Conditions under which the result matters: it only flows, without effects, into one arm of selections."""
    f = I.fn; out, n = [], i["id"]
    for _ in range(6):
        us = f.users.get(n, [])
        if len(us) != 1: break
        u = us[0]
        if u["op"] == "select":
            c = st.env.get(u["ops"][0].get("id"))
            if isinstance(c, Cond) and u["ops"][0].get("id") != n:
                if u["ops"][1].get("id") == n and u["ops"][2].get("id") != n: out.append(c)
                elif u["ops"][2].get("id") == n: out.append(t.neg(c))
        elif u["op"] not in ("add", "sub", "and", "or", "xor", "zext", "trunc", "mul", "shl", "lshr"): break
        n = u["id"]
    return out


def note(ctx, n, rec, seen, ty):
    for I, i, y, st in rec:
        if not hasattr(I, "B"): I.B = inv.Bounds(I)
        w = int(i["ty"][1:]); k = place(I.fn, i); key = (n, i["id"])
        if inv.given_up(ctx, k, n): seen[key] = False; ctx.undec("shift at %s:%d" % k, "not shown for other operations"); continue
        sp = speculated(I, i, st); facts = st.facts
        if sp: facts = dict(facts); facts.update({c.key: c.pos for c in sp if c not in (t.TRUE, t.FALSE)})
        if any(c is t.FALSE for c in sp) or (inv.within(y, 0, w, st, I.B, facts=facts) or edges(I, y, w, facts, st)): seen.setdefault(key, True); ctx.ok("%s: shift by %s at %s:%d" % (api.human(n), repr(y)[:100], *k)); continue
        seen[key] = False
        v = inv.once(ctx, k, n, lambda: counterexample(I, i, y, w, facts))
        if v is inv.KNOWN: continue
        if v is not None: ctx.bad("shift by %d of a %d-bit word at %s" % (v, w, "%s:%d" % k), "%s, %s: the count %s is not kept below %d" % (I.fn.loc(i), life.KINDS[ty], repr(y)[:200], w))
        else: ctx.undec("shift at %s:%d" % k, "%s, %s: count %s" % (api.human(n), life.KINDS[ty], repr(y)[:200]))


def edges(I, y, w, facts, st):
    """Shown after leaving out boundary values of the suffix lengths with which the conditions at the shift contradict themselves."""
    out = {}
    for n in ("hlen", "rlen"):
        a = t.atom("arg", n)
        if a not in y.m: continue
        for v in (0, 64):
            put = lambda x: t.subst(x, lambda b: const(v) if b is a else None)
            if any(put(t.cond(k, p)) is t.FALSE for k, p in facts.items()):
                c = t.neg(t.eq(t.mk(0, {a: 1}), const(v))); out[c.key] = c.pos
    return bool(out) and inv.within(y, 0, w, st, I.B, facts={**facts, **out})


def counterexample(I, i, y, w, facts):
    """A count out of range for some choice of the arguments and of remainders, on the first round of loops."""
    first = {}
    for a in t.atoms_in(y):
        if a.kind in ("phi", "j"):
            s = I.B.sources(a)
            c = [v for v, _ in s or [] if not v.m]
            if not c: return None
            first[a] = c[0]
    put = lambda x: t.subst(x, lambda a: first.get(a))
    # conditions on what other loops computed may speak of the count, too
    about = t.atoms_in(put(y)); fs = [put(c) for c in inv.conds(facts)]; of = {}
    for c in fs:
        for a in t.atoms_in(c):
            if passed(I, i, a): of.setdefault(I.B.by_id[a.args[1]][0], set()).add(a)
    # (one value compared with a limit is how a loop ends; a second one relates the limit to something)
    if any(t.atoms_in(c) & about and t.atoms_in(c) & x and t.atoms_in(c) <= about | x for x in of.values() if len(x) > 1 for c in fs): return None
    y = put(y); facts = {c.key: c.pos for c in (put(t.cond(k, v)) for k, v in facts.items()) if c is not t.TRUE}
    if any(c == ("true",) for c in facts): return None
    if not free(y): return None
    for v in t.valuations(facts, [y], 30):
        if not 0 <= v.term(y) < w: return v.term(y)
    return None


def passed(I, i, a):
    """Is the value one of a loop that does not contain the instruction?"""
    return a.kind == "phi" and a.args[0] == I.fid and a.args[1] in I.B.by_id and I.B.by_id[a.args[1]][0] not in I.inloop.get(I.fn.blk[i["id"]], ())


def free(y):
    """Is the term made of suffix lengths and remainders only (which take every value)?"""
    for a in y.m:
        if a.kind == "arg" and a.args[0] in ("hlen", "rlen"): continue
        if a.kind == "rem": continue
        if a.kind == "ite" and all(free(x) for x in a.args[1:]): continue
        return False
    return True
