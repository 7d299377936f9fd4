"""Abstract interpretation of one fully inlined function over canonical terms and an allocation-site heap.

States are partitioned by what distinguishes tracked objects (the parts of a filter); everything else is merged at
joins, with two-way choices kept as gated terms.  Loops are never unrolled: at a loop header every value and memory
cell the loop may change becomes unknown, the body is visited once, and array writes that sweep a range with the loop's
induction variable are summarised when the loop is left.  Sizes are mathematical integers (no wrap-around)."""
import re
import terms as t
from terms import Term, Cond, const, add, sub, scale, eq, ult, neg, ite, TRUE, FALSE
from ir import Broken, flat
import pts as P


class Ptr:
    __slots__ = ("obj", "off")

    def __init__(self, obj, off): self.obj, self.off = obj, off
    def __eq__(self, o): return isinstance(o, Ptr) and o.obj is self.obj and o.off is self.off
    def __ne__(self, o): return not self == o
    def __hash__(self): return hash((id(self.obj), self.off.n))
    def __repr__(self): return "&%s+%r" % (self.obj, self.off)


class Obj:
    """An abstract memory object; its contents live in the state."""
    count = 0

    def __init__(self, name, kind, size, loc=""):
        self.name, self.kind, self.size, self.loc = name, kind, size, loc   # kind: new / new[] / stack / arg / opaque
        Obj.count += 1; self.n = Obj.count
        self.tracked = False; self.single = True; self.align = 16

    def __repr__(self): return self.name


class ConstObj(Obj):
    """Memory given by the caller that nothing writes: the same address always holds the same value."""

    def __init__(self, name, fields=None, elem=None):
        super().__init__(name, "const", const(0)); self.fields, self.elem, self.kids = fields or {}, elem, {}

    def read(self, off, ty, i):
        if not off.m and off.c in self.fields: return self.fields[off.c]
        if self.elem is not None:
            v = self.elem(self, off, ty)
            if v is not None: return v
        if ty == "ptr":
            if off not in self.kids: self.kids[off] = Ptr(ConstObj("%s[%r]" % (self.name, off)), const(0))
            return self.kids[off]
        if ty == "i1": return t.cond(("cm", self.n, off, ty))
        return t.at("cm", self.n, off, ty)


NULL = Ptr(Obj("null", "null", const(0)), const(0))


class Cell:
    """Contents of one object: fields at constant offsets, plus segments at symbolic offsets."""
    __slots__ = ("f", "segs", "init", "zero", "alive", "dirty", "sum", "cinit", "lost")

    def __init__(self):
        self.f, self.segs, self.init, self.zero, self.alive, self.dirty, self.sum = {}, (), (), None, True, False, ()
        self.cinit, self.lost = (), False        # ranges written on some paths, with the conditions; whether some were forgotten

    def copy(self):
        c = Cell(); c.f, c.segs, c.init, c.zero, c.alive, c.dirty, c.sum = dict(self.f), self.segs, self.init, self.zero, self.alive, self.dirty, self.sum
        c.cinit, c.lost = self.cinit, self.lost
        return c


class State:
    def __init__(self):
        self.env, self.heap, self.facts, self.events, self.ent = {}, {}, {}, (), {}
        self.alts = ()                # groups of alternatives: of each group, the conditions of one member hold

    def copy(self):
        s = State(); s.alts = self.alts; s.env, s.heap, s.facts, s.events, s.ent = dict(self.env), dict(self.heap), dict(self.facts), self.events, dict(self.ent)
        return s

    def cell(self, o):
        c = self.heap.get(o)
        if c is None: c = self.heap[o] = Cell()
        return c

    def wcell(self, o):
        c = self.heap.get(o)
        c = self.heap[o] = c.copy() if c else Cell()
        return c


SIGNED_BIT = {1: 1, 8: 128, 16: 1 << 15, 32: 1 << 31, 64: 1 << 63}
SCALAR = {"i1", "i8", "i16", "i32", "i64"}


class Interp:
    PTRPHI = False
    def __init__(self, fn, pts, tracked_sites=(), max_states=64, tag=""):
        self.fn, self.pts, self.mod = fn, pts, fn.mod
        self.tracked_sites = set(tracked_sites)
        self.max_states = max_states
        self.ptrphi = Interp.PTRPHI
        self.tag = tag; self.fid = tag or fn.dem.split("(")[0]
        self.objs = {}
        self.problems = []
        self.loops = fn.loops
        self.inloop = {}
        for h, body in self.loops.items():
            for b in body: self.inloop.setdefault(b, set()).add(h)
        self.latch_states = {}
        self.cmps = {}                        # unsigned comparison -> {(smaller, larger)}
        self.entries, self.joins, self.cjoins = {}, {}, {}     # loop header -> [(values of its phis, facts)]; joined atom -> [(value, facts)]
        self.loop_stores = {}
        self.pobj = {}           # pts object -> Obj

    # ---------------------------------------------------------------- running
    def run(self, args, heap=None, facts=None):
        """args: list of values (Term/Ptr) in argument order.  Returns [(return value, State)]."""
        s = State()
        if heap: s.heap = dict(heap)
        if facts: s.facts = dict(facts)
        for a, v in zip(self.fn.args, args): s.env[a["id"]] = v
        rpo = self.order(); pos = {b: n for n, b in enumerate(rpo)}
        inc = {b: [] for b in rpo}           # block -> [(pred, state)]
        inc[self.fn.entry].append((None, s))
        out = []
        for b in rpo:
            if not inc[b]: continue
            ins = []
            for p, st in inc[b]:
                for h in sorted(self.inloop.get(p, ()), key=lambda h: len(self.loops[h])):
                    if b not in self.loops[h]: st = self.leave(h, p, b, st)
                ins.append((p, st))
            states = self.enter(b, ins)
            for st in states:
                for succ, ns in self.block(b, st, out):
                    if succ in self.loops and b in self.loops[succ]:
                        self.latch_states.setdefault(succ, []).append((b, ns)); continue
                    inc[succ].append((b, ns))
            inc[b] = None
        return out

    def order(self):
        """A topological order (back edges aside) in which every loop is finished before what follows it."""
        f = self.fn; seen, out = set(), []

        def succs(b):
            # what leaves the most loops is walked first, and so ends up last
            return sorted(f.succ[b], key=lambda s: len(self.inloop.get(b, set()) & self.inloop.get(s, set())))
        st = [(f.entry, iter(succs(f.entry)))]; seen.add(f.entry)
        while st:
            b, it = st[-1]
            for s in it:
                if s not in seen: seen.add(s); st.append((s, iter(succs(s)))); break
            else: out.append(b); st.pop()
        return out[::-1]

    def enter(self, b, inc):
        phis = [i for i in self.fn.blocks[b] if i["op"] == "phi"]
        states = []
        header = b in self.loops
        for p, st in inc:
            st = st.copy()
            vals = {}
            for i in phis:
                for o, pb in i["in"]:
                    if pb == p: vals[i["id"]] = self.val(st, o); break
            st.env.update(vals)
            states.append(st)
        states = self.merge(b, states, [i["id"] for i in phis])
        if header:
            for st in states:
                st.ent[b] = {i["id"]: st.env.get(i["id"]) for i in phis}
                self.entries.setdefault(b, []).append((st.ent[b], st.facts))
                for i in phis:
                    v = st.ent[b][i["id"]]
                    # a pointer that only moves relative to itself stays in its object
                    if isinstance(v, Ptr) and v.obj.kind != "null" and self.selfbased(b, i): st.env[i["id"]] = Ptr(v.obj, self.fresh(i, "phi"))
                    else: st.env[i["id"]] = self.fresh(i, "phi")
                self.havoc_loop(b, st)
        return states

    def selfbased(self, h, i):
        """Does every value the loop gives this pointer derive from the pointer itself?"""
        if not self.ptrphi: return False
        seen, todo = {i["id"]}, [o for o, p in i["in"] if p in self.loops[h]]
        while todo:
            o = todo.pop()
            if o.get("k") != "i": return False
            if o["id"] in seen: continue
            seen.add(o["id"]); d = self.fn.inst[o["id"]]
            if d["op"] == "phi": todo += [x for x, _ in d["in"]]
            elif d["op"] == "select": todo += d["ops"][1:]
            elif d["op"] in ("getelementptr", "freeze", "bitcast"): todo.append(d["ops"][0])
            else: return False
        return True

    def fresh(self, i, kind="v"):
        """An unknown value for an instruction."""
        return t.at(kind, self.fid, i["id"])

    # ---------------------------------------------------------------- merging
    def shape(self, st):
        r = []
        for o, c in st.heap.items():
            if not o.tracked: continue
            r.append((o.n, c.alive, tuple(sorted((off, v.obj.n) for off, (sz, v) in c.f.items() if isinstance(v, Ptr)))))
        return tuple(sorted(r))

    def merge(self, b, states, phis):
        if len(states) == 1: return states
        groups = {}
        for s in states:
            # values of phis that point to different tracked objects keep their states apart
            k = (self.shape(s), tuple(s.env[p].obj.n if isinstance(s.env.get(p), Ptr) and s.env[p].obj.tracked else None for p in phis))
            groups.setdefault(k, []).append(s)
        out = []
        for g in groups.values():
            g = list(g)
            ch = True
            while ch and len(g) > 1:
                ch = False
                for x in range(len(g)):
                    for y in range(x + 1, len(g)):
                        c = self.differ(g[x], g[y])
                        if c is not None:
                            m = self.merge2(b, g[x], g[y], c, phis)
                            g = [s for n, s in enumerate(g) if n not in (x, y)] + [m]
                            ch = True; break
                    if ch: break
            while len(g) > 1:
                m = self.merge2(b, g[0], g[1], None, phis); g = [m] + g[2:]
            out += g
        if len(out) > self.max_states: raise Broken("too many abstract states in " + self.fn.dem)
        return out

    def differ(self, a, b):
        """The one condition on which two states differ, as a condition true in a; None if not so simple; TRUE if none."""
        fa, fb = a.facts, b.facts
        if len(fa) != len(fb): return None
        c = None
        for k, v in fa.items():
            if k not in fb: return None
            if fb[k] != v:
                if c is not None: return None
                c = t.cond(k, v)
        return c if c is not None else TRUE

    def merge2(self, b, x, y, c, phis):
        self.merging = x.facts, y.facts
        m = State()
        m.ent = {k: v for k, v in x.ent.items() if y.ent.get(k) == v}
        m.facts = {k: v for k, v in x.facts.items() if y.facts.get(k) == v}
        m.alts = self.alternatives(x, y, m)
        for k, v in x.env.items():
            if k not in y.env: continue
            w = y.env[k]
            m.env[k] = v if v is w or v == w else self.join(b, k, v, w, c)
        for o in set(x.heap) | set(y.heap):
            p, q = x.heap.get(o), y.heap.get(o)
            if p is q: m.heap[o] = p; continue
            if p is None or q is None: m.heap[o] = p or q; continue
            r = Cell()
            for off, (sz, v) in p.f.items():
                if off in q.f and q.f[off][0] == sz:
                    w = q.f[off][1]
                    r.f[off] = (sz, v if v is w or v == w else self.join(b, (o.n, off), v, w, c))
            r.segs = p.segs if p.segs == q.segs else self.join_segs(p.segs, q.segs, c)
            # a range written on one branch only counts where the other branch implies that it is empty
            r.init = tuple(z for z in p.init if z in q.init or empty(z[1], c, False)) + tuple(z for z in q.init if z not in p.init and empty(z[1], c, True))
            gp = [(z[0], z[1], ()) for z in p.init if z not in r.init] + [z for z in p.cinit if z not in q.cinit]
            gq = [(z[0], z[1], ()) for z in q.init if z not in r.init] + [z for z in q.cinit if z not in p.cinit]
            r.cinit = tuple(z for z in p.cinit if z in q.cinit); r.lost = p.lost or q.lost
            if gp or gq:
                if c is None or c is TRUE or len(gp) + len(gq) + len(r.cinit) > 24: r.lost = True
                else: r.cinit += tuple((o_, l_, g + (c,)) for o_, l_, g in gp) + tuple((o_, l_, g + (neg(c),)) for o_, l_, g in gq)
            r.sum = tuple(z for z in p.sum if z in q.sum)
            r.zero = p.zero if p.zero is q.zero else None
            r.alive = p.alive and q.alive
            r.dirty = p.dirty or q.dirty or r.segs is None
            if r.segs is None: r.segs = ()
            m.heap[o] = r
        if x.events is y.events: m.events = x.events
        else:
            common = set(); e = x.events
            while e: common.add(id(e)); e = e[0]
            e = y.events; b_ = []
            while e and id(e) not in common: b_.append(e[1]); e = e[0]
            base = e; a_ = []; e = x.events
            while e and e is not base: a_.append(e[1]); e = e[0]
            m.events = (base, ("choice", c, a_[::-1], b_[::-1]))
        return m

    def alternatives(self, x, y, m):
        both = tuple(g for g in x.alts if g in y.alts); new = []
        for s, other in ((x, y), (y, x)):
            e = {k: v for k, v in s.facts.items() if k not in m.facts}
            g = [g for g in s.alts if g not in other.alts][-1:]
            new += [{**e, **a} for a in g[0]] if g else [e]
        return (both + (new,))[-3:] if len(new) <= 6 and all(new) else both

    def join_segs(self, a, b, c):
        """Segments written on one of two branches become conditional."""
        n = 0
        while n < min(len(a), len(b)) and a[n] == b[n]: n += 1
        ra, rb = a[n:], b[n:]
        if c is None or c is TRUE: return None
        return a[:n] + tuple((o, l, v, g if empty(l, c, False) else g + (c,)) for o, l, v, g in ra) \
            + tuple((o, l, v, g if empty(l, c, True) else g + (neg(c),)) for o, l, v, g in rb)

    def join(self, b, k, v, w, c):
        if c is TRUE: c = None
        if isinstance(v, Term) and isinstance(w, Term):
            if c is not None: return ite(c, v, w)
            a = t.at("j", self.fid, b, str(k))
            if c is None: self.joins.setdefault(next(iter(a.m)), []).extend([(v, self.merging[0]), (w, self.merging[1])])
            return a
        if isinstance(v, Cond) and isinstance(w, Cond):
            if c is not None:
                if v is TRUE and w is FALSE: return c
                if v is FALSE and w is TRUE: return neg(c)
            r = t.cond(("join", self.fid, b, str(k)))
            self.cjoins.setdefault(r.key, []).extend([(v, self.merging[0]), (w, self.merging[1])])
            return r
        if isinstance(v, Ptr) and isinstance(w, Ptr) and v.obj is w.obj:
            return Ptr(v.obj, self.join(b, k, v.off, w.off, c))
        return t.at("jp", self.fid, b, str(k))

    # ---------------------------------------------------------------- loops
    def obj_of_pts(self, o):
        return self.pobj.get(o)

    def havoc_loop(self, h, st):
        body = self.loops[h]
        for b in body:
            for i in self.fn.blocks[b]:
                for o, arr in self.written(i):
                    ob = self.obj_of_pts(o)
                    if ob is None or ob not in st.heap: continue
                    c = st.wcell(ob); c.zero = None; c.dirty = True
                    if arr is None or arr is True:
                        # an unknown place of the object, or a whole array: the scalar fields of a tracked object are
                        # only reached at constant offsets
                        if ob.kind == "new[]" or arr is None or not ob.tracked: c.f = {}; c.segs = ()
                    else:
                        for off in [o for o, (sz, _) in c.f.items() if o < arr + i.get("ssz", 8) and arr < o + sz]: del c.f[off]
                        if i["op"] == "store" and i["ssz"] in (4, 8) and ob.kind != "new[]":
                            ty = i.get("sty", "")
                            if ty != "ptr": c.f[arr] = (i["ssz"], t.at("mem", self.fid, h, ob.n, arr))

    def written(self, i):
        op = i["op"]
        if op == "store":
            for o, off in self.pts.val(i["ops"][1]): yield o, True if off is None else off
        elif op == "call":
            fn = i.get("fn") or ""
            if fn.startswith(("llvm.memcpy", "llvm.memmove", "llvm.memset")) or fn in ("memcpy", "memmove", "memset"):
                for o, off in self.pts.val(i["ops"][0]): yield o, None
            elif P.ALLOC.match(fn) or P.FREE.match(fn) or P.NORET.search(fn) or fn.startswith("llvm.") or fn in P.PURE_EXT: return
            else:
                for n in self.pts.writes_args(i):
                    for o, off in self.pts.val(i["ops"][n]): yield o, None

    def leave(self, h, b, succ, st):
        """Summarise the array sweep of loop h when it is left over the edge b->succ."""
        st = st.copy()
        for sweep in self.sweeps(h, b, st):
            o, lo, hi, i = sweep
            if o in st.heap:
                c = st.wcell(o)
                c.init += ((lo, sub(hi, lo)),); c.sum += ((lo, hi, i["id"]),)
        if b == h:
            # the induction variable's value after the loop
            for pid, init, last, up in self.final(h, b, st):
                st.env[pid] = ite(ult(init, last), last, init) if up else ite(ult(last, init), last, init)
        return st

    def final(self, h, b, st):
        r = self.exit_of(h, b, st)
        if r is None: return []
        a, step, init, last, _ = r
        return [(a.args[1], init, last, step > 0)] if abs(step) == 1 else []

    def sweeps(self, h, b, st):
        """[(object, first byte, end byte, store)]: ranges every one of whose bytes the loop has written when left over b."""
        r = self.exit_of(h, b, st)
        if r is None: return []
        a, step, init, last, steps = r
        latches = self.latch_states[h]; out = []
        phis = [i for i in self.fn.blocks[h] if i["op"] == "phi"]
        for lb in self.loops[h]:
            for i in self.fn.blocks[lb]:
                if i["op"] != "store": continue
                if self.fn.loop_of(lb) != h: continue
                if not all(self.fn.dominates(lb, x) for x, _ in latches): continue
                # at the test: has the store of this round already happened?
                done = self.fn.dominates(lb, b) and (lb != b or True)
                p = None
                for x, ls in latches:
                    p = self.val(ls, i["ops"][1])
                if not isinstance(p, Ptr): continue
                inv = {x for x in t.atoms_in(p.off) if x.kind == "phi" and x.args[1] in {j["id"] for j in phis}}
                if inv - set(steps) or any(x not in p.off.m for x in inv): continue
                if not inv: continue
                # all induction variables of the address, relative to their start, move together
                stride = sum(p.off.m[x] * steps[x][0] for x in inv)
                if abs(stride) != i["ssz"]: continue
                start = sub(p.off, t.mk(0, {x: p.off.m[x] for x in inv}))
                okk = True
                for x in inv:
                    if not isinstance(steps[x][1], Term): okk = False; break
                    start = add(start, scale(steps[x][1], p.off.m[x]))
                if not okk: continue
                rounds = scale(sub(last, init), 1 if step > 0 else -1)     # tests passed, |step| == 1 checked below
                if abs(step) != 1: continue
                n = add(rounds, const(1)) if done else rounds
                if stride > 0: lo, hi = start, add(start, scale(n, stride))
                else: lo, hi = add(start, sub(const(i["ssz"]), scale(n, -stride))), add(start, const(i["ssz"]))
                out.append((p.obj, lo, hi, i))
        return out

    def exit_of(self, h, b, st):
        """(induction atom, step, first value, value at which the loop is left over b, all steps), if the loop is a counted one."""
        exits = [(x, s) for x in self.loops[h] for s in self.fn.succ[x] if s not in self.loops[h] and not self.noret(s)]
        if len(exits) != 1: return None
        latches = self.latch_states.get(h, [])
        if not latches: return None
        term = self.fn.blocks[b][-1]
        if term["op"] != "br" or "ops" not in term: return None
        entry = st.ent.get(h)
        if entry is None: return None
        cnd = st.env.get(term["ops"][0].get("id"))
        if not isinstance(cnd, Cond): return None
        stay = cnd if term["succ"][0] in self.loops[h] else neg(cnd)
        phis = [i for i in self.fn.blocks[h] if i["op"] == "phi"]
        steps = {}
        for i in phis:
            a = t.atom("phi", self.fid, i["id"])
            ds = set()
            for lb, ls in latches:
                v = next((self.val(ls, o) for o, pb in i["in"] if pb == lb), None)
                d = None
                if isinstance(v, Term):
                    d = sub(v, t.mk(0, {a: 1}))
                    d = d.c if not d.m else None
                ds.add(d)
            if len(ds) == 1 and None not in ds and isinstance(entry.get(i["id"]), (Term, Ptr)): steps[a] = (ds.pop(), entry[i["id"]])
        # the quantity that decides the exit, and how far it runs
        k = stay.key
        if k[0] not in ("lt", "eq"): return None
        d = k[1]
        ind = [a for a in d.m if a in steps]
        loopatoms = [a for a in t.atoms_in(d) if a.kind == "phi" and a.args[1] in {i["id"] for i in phis}]
        if len(ind) != 1 or len(loopatoms) != 1: return None
        a = ind[0]; step, init = steps[a]; v = d.m[a]
        if not isinstance(init, Term) or step == 0 or abs(v) != 1: return None
        rest = sub(d, t.mk(0, {a: v}))
        # number of further rounds, as the value of the induction variable at which the loop is left
        if k[0] == "eq":
            if stay.pos: return None
            last = scale(rest, -v) if v == 1 else rest          # v*i + rest == 0
            last = scale(rest, -1) if v == 1 else rest
        else:
            # stay while 0 < v*i + rest  (pos)  or  0 >= v*i + rest (neg)
            if stay.pos:
                if v == -1 and step == 1: last = rest                     # i < rest
                elif v == 1 and step == -1: last = scale(rest, -1)        # i > -rest
                else: return None
            else:
                if v == 1 and step == 1: last = add(scale(rest, -1), const(1))   # i <= -rest
                elif v == -1 and step == -1: last = sub(rest, const(1))          # i >= rest
                else: return None
        return a, step, init, last, steps

    def noret(self, b):
        return self.fn.blocks[b][-1]["op"] == "unreachable"

    # ---------------------------------------------------------------- values
    def val(self, st, o, w=None):
        k = o["k"]
        if k in ("i", "a"):
            v = st.env.get(o["id"])
            if v is None: v = st.env[o["id"]] = t.at("undef", self.fid, o["id"])
            return v
        if k == "c":
            c = int(o["v"]); w = o["w"]
            if w == 1: return TRUE if c else FALSE
            return const(c)
        if k == "null": return NULL
        if k == "zero": return const(0)
        if k == "g": return Ptr(self.global_obj(o["n"]), const(0))
        if k == "ce" and o["op"] == "getelementptr" and not o.get("idx") and "off" in o:
            b = self.val(st, o["ops"][0])
            if isinstance(b, Ptr): return Ptr(b.obj, add(b.off, const(o["off"])))
        return t.at("const", str(o))

    def global_obj(self, n):
        k = ("G", n)
        if k not in self.pobj:
            ob = Obj("global " + n, "global", const(0)); self.pobj[k] = ob
        return self.pobj[k]

    def signed(self, v, o):
        """A constant with its top bit set is a negative addend."""
        if o["k"] == "c" and isinstance(v, Term) and v.c >= SIGNED_BIT.get(o["w"], 1 << 63): return const(v.c - (1 << o["w"]))
        return v

    def known(self, st, c):
        if c in (TRUE, FALSE): return c is TRUE
        v = st.facts.get(c.key)
        if v is not None: return v == c.pos
        if c.key[0] == "eq":
            d = c.key[1]
            if len(d.m) == 1:
                (a, k), = d.m.items()
                for key, val in st.facts.items():
                    if val and key[0] == "eq" and len(key[1].m) == 1:
                        (a2, k2), = key[1].m.items()
                        if a2 is a and (d.c * k2 != key[1].c * k): return not c.pos
        if c.key[0] == "lt":
            # bounds of a single atom fixed by an equality
            d = c.key[1]
            for key, val in st.facts.items():
                if val and key[0] == "eq" and len(key[1].m) == 1 and len(d.m) == 1:
                    (a2, k2), = key[1].m.items(); (a, k), = d.m.items()
                    if a is a2 and k2 == 1: return (k * -key[1].c + d.c > 0) == c.pos
        return None

    def asint(self, v):
        if isinstance(v, Cond): return ite(v, const(1), const(0))
        if isinstance(v, Ptr):
            if v.obj is NULL.obj: return v.off
            return add(t.at("base", v.obj.n), v.off)
        return v

    # ---------------------------------------------------------------- blocks
    def block(self, b, st, out):
        st = st.copy()
        insts = self.fn.blocks[b]
        for i in insts:
            op = i["op"]
            if op == "phi": continue
            if op == "br":
                if "ops" not in i: return [(i["succ"][0], st)]
                c = self.val(st, i["ops"][0])
                if not isinstance(c, Cond): c = t.cond(("bool", c))
                return self.fork(st, [(c, i["succ"][0]), (neg(c), i["succ"][1])])
            if op == "switch":
                v = self.asint(self.val(st, i["ops"][0])); br = []; rest = []
                for cv, s in i["cases"]:
                    e = eq(v, const(int(cv["v"]))); br.append((e, s))
                return self.switch(st, br, i["def"])
            if op == "ret":
                out.append((self.val(st, i["ops"][0]) if i["ops"] else None, st)); return []
            if op == "unreachable": return []
            self.step(st, i, b)
            if op == "call" and (i.get("noret") or P.NORET.search(i.get("fn") or "")): return []
        return []

    def fork(self, st, br):
        if br[0][1] == br[1][1]: return [(br[0][1], st)]
        r = self.known(st, br[0][0])
        if r is not None: return [(br[0][1] if r else br[1][1], st)]
        out = []
        for c, s in br:
            if self.noret(s) and len(self.fn.blocks[s]) <= 2: continue
            n = st.copy(); self.assume(n, c); out.append((s, n))
        return out

    def assume(self, st, c):
        """Note a condition, and the conditions it is selected from if it holds for one reason only."""
        st.facts[c.key] = c.pos
        if c.key[0] == "and" and c.pos:
            for z in c.key[1:]: self.assume(st, z)
        if c.key[0] != "join" or c.key[1] != self.fid or not c.key[3].isdigit(): return
        d = self.fn.inst.get(int(c.key[3]))
        if d is None or d["op"] != "select": return
        w, x, y = (self.val(st, o) for o in d["ops"])
        if not all(isinstance(z, Cond) for z in (w, x, y)): return
        no = FALSE if c.pos else TRUE
        so = lambda z: z if c.pos else neg(z)
        for z in (w, so(x)) if y is no else (neg(w), so(y)) if x is no else ():
            if z not in (TRUE, FALSE): self.assume(st, z)

    def switch(self, st, br, default):
        out = []; cur = st
        for c, s in br:
            r = self.known(cur, c)
            if r is True: out.append((s, cur)); return out
            if r is False: continue
            n = cur.copy(); n.facts[c.key] = c.pos; out.append((s, n))
            cur = cur.copy(); cur.facts[c.key] = not c.pos
        if not (self.fn.blocks[default][-1]["op"] == "unreachable" and len(self.fn.blocks[default]) == 1): out.append((default, cur))
        return out

    def step(self, st, i, b):
        op = i["op"]; ops = i.get("ops", [])
        put = lambda v: st.env.__setitem__(i["id"], v)
        if op == "alloca":
            ob = self.objs.get(i["id"])
            if ob is None:
                ob = self.objs[i["id"]] = Obj("local%d" % i["id"], "stack", const(i.get("asz", -1)), self.fn.loc(i))
                self.pobj[("A", i["id"])] = ob
            st.heap[ob] = Cell(); return put(Ptr(ob, const(0)))
        if op == "getelementptr":
            p = self.val(st, ops[0])
            if not isinstance(p, Ptr) or i.get("badgep"): return put(self.fresh(i))
            off = add(p.off, const(i["off"]))
            for o, s in i["idx"]:
                x = self.signed(self.asint(self.val(st, o)), o) if o["k"] == "c" else self.asint(self.val(st, o))
                if not isinstance(x, Term): return put(self.fresh(i))
                off = add(off, scale(x, s))
            return put(Ptr(p.obj, off))
        if op in ("add", "sub", "mul", "shl", "and", "or", "xor", "lshr", "ashr", "udiv", "sdiv", "urem", "srem"):
            return put(self.arith(st, i, op, ops))
        if op in ("zext", "sext", "bitcast", "freeze"):
            v = self.val(st, ops[0])
            return put(self.asint(v) if isinstance(v, Cond) and op == "zext" else v)
        if op == "trunc":
            v = self.asint(self.val(st, ops[0]))
            if i["ty"] == "i1": return put(neg(eq(v, const(0))))
            if i["ty"] in ("i8", "i16") and v.m: return put(t.at("trunc", v, i["ty"]))
            if v.m == {}: return put(const(v.c % (1 << int(i["ty"][1:]))))
            return put(v)
        if op == "ptrtoint": return put(self.asint(self.val(st, ops[0])))
        if op == "inttoptr":
            v = self.val(st, ops[0])
            if isinstance(v, Ptr): return put(v)
            bs = [a for a in v.m if a.kind == "base"]
            if len(bs) == 1 and v.m[bs[0]] == 1:
                ob = self.by_n(bs[0].args[0], st)
                if ob is not None: return put(Ptr(ob, sub(v, t.mk(0, {bs[0]: 1}))))
            return put(self.fresh(i))
        if op == "icmp": return put(self.icmp(st, i))
        if op == "select":
            c = self.val(st, ops[0]); x, y = self.val(st, ops[1]), self.val(st, ops[2])
            if not isinstance(c, Cond): c = t.cond(("bool", c))
            r = self.known(st, c)
            if r is not None: return put(x if r else y)
            if isinstance(x, Term) and isinstance(y, Term): return put(ite(c, x, y))
            self.merging = {**st.facts, c.key: c.pos}, {**st.facts, c.key: not c.pos}
            return put(self.join(b, i["id"], x, y, c) if x != y else x)
        if op == "load": return put(self.load(st, self.val(st, ops[0]), i))
        if op == "store": return self.store(st, self.val(st, ops[1]), self.val(st, ops[0]), i["ssz"], i)
        if op == "call": return self.call(st, i, b)
        if op == "extractvalue":
            v = self.val(st, ops[0])
            if isinstance(v, tuple): return put(v[i["ix"][0]])
            return put(self.fresh(i) if i["ty"] != "i1" else t.cond(("v", self.fid, i["id"])))
        if i["ty"] == "void": return
        return put(self.fresh(i))

    def by_n(self, n, st):
        for o in st.heap:
            if o.n == n: return o
        return None

    def arith(self, st, i, op, ops):
        x, y = self.val(st, ops[0]), self.val(st, ops[1])
        if i["ty"] == "i1":
            if isinstance(x, Cond) and isinstance(y, Cond):
                if op == "xor" and y is TRUE: return neg(x)
                if op == "xor" and x is TRUE: return neg(y)
                if op == "and":
                    if x is TRUE: return y
                    if y is TRUE: return x
                    if FALSE in (x, y): return FALSE
                    return t.cond(("and", x, y))
                if op == "or":
                    if x is FALSE: return y
                    if y is FALSE: return x
                    if TRUE in (x, y): return TRUE
                    return t.cond(("and", neg(x), neg(y)), False)
            return t.cond(("v", self.fid, i["id"]))
        x, y = self.asint(x), self.asint(y)
        if i["ty"] not in SCALAR or not isinstance(x, Term) or not isinstance(y, Term): return self.fresh(i)
        w = int(i["ty"][1:])
        if op == "add": return add(self.signed(x, ops[0]), self.signed(y, ops[1]))
        if op == "sub": return sub(x, self.signed(y, ops[1]))
        if op == "mul": return t.mul(self.signed(x, ops[0]), self.signed(y, ops[1]))
        if not y.m:
            c = y.c
            if op == "shl": return scale(x, 1 << c) if c < w else self.fresh(i)
            if i.get("ex") and op in ("lshr", "ashr"): return t.exact(x, 1 << c)
            if i.get("ex") and op in ("udiv", "sdiv") and 0 < c < 1 << 31: return t.exact(x, c)
            if op in ("lshr", "ashr"): return t.div(x, 1 << c)
            if op in ("udiv", "sdiv") and 0 < c < 1 << 31: return t.div(x, c)
            if op in ("urem", "srem") and 0 < c < 1 << 31: return t.rem(x, c)
            if op == "and":
                if not x.m: return const(x.c & c)
                if c & (c + 1) == 0: return t.rem(x, c + 1)
                n = (1 << w) - c
                if n & (n - 1) == 0: return t.down(x, n)
            if op == "or" and c == 0: return x
            if op == "xor" and c == 0: return x
        if op in ("and", "or", "xor"):
            if not x.m and not y.m: return const({"and": x.c & y.c, "or": x.c | y.c, "xor": x.c ^ y.c}[op])
            x, y = sorted((x, y), key=lambda q: q.n)
        return t.at(op, x, y)

    def icmp(self, st, i):
        ops = i["ops"]; x, y = self.val(st, ops[0]), self.val(st, ops[1]); p = i["pred"]
        if isinstance(x, Ptr) and isinstance(y, Ptr):
            if x.obj is not y.obj:
                other = NULL.obj in (x.obj, y.obj)
                if p == "eq" and (other or x.obj.kind != "opaque" and y.obj.kind != "opaque"): return FALSE
                if p == "ne" and (other or x.obj.kind != "opaque" and y.obj.kind != "opaque"): return TRUE
                return t.cond(("v", self.fid, i["id"]))
            x, y = x.off, y.off
        if isinstance(x, Ptr) or isinstance(y, Ptr): return t.cond(("v", self.fid, i["id"]))
        if isinstance(x, Cond) or isinstance(y, Cond): x, y = self.asint(x), self.asint(y)
        if not isinstance(x, Term) or not isinstance(y, Term): return t.cond(("v", self.fid, i["id"]))
        if p == "eq": return eq(x, y)
        if p == "ne": return neg(eq(x, y))
        sg = p[0] == "s"
        if sg: x, y = self.signed(x, ops[0]), self.signed(y, ops[1])
        q = p[1:]
        if q in ("gt", "le"): x, y = y, x
        c = ult(x, y, sg)
        if not sg and c.key[0] == "lt": self.cmps.setdefault(c.key, set()).add((x, y) if c.pos else (y, x))
        return c if q in ("lt", "gt") else neg(c)

    # ---------------------------------------------------------------- memory
    def load(self, st, p, i):
        sz, ty = i["sz"], i["ty"]
        if isinstance(p, Ptr) and p.obj.kind == "const": return p.obj.read(p.off, ty, i)
        if isinstance(p, Ptr) and p.obj in st.heap and p.obj.kind != "null":
            c = st.heap[p.obj]
            self.touch(st, c, p.obj, i)
            if not p.off.m and p.off.c in c.f and c.f[p.off.c][0] == sz:
                return self.retype(c.f[p.off.c][1], ty, i)
            s = self.find_seg(st, c, p.off, const(sz))
            if s is not None and s[0] == "val": return self.retype(s[1], ty, i)
            if c.zero is not None and not c.segs and not c.dirty and not p.off.m and not self.overlap(c, p.off.c, sz):
                return NULL if ty == "ptr" else const(0)
            st.events = (st.events, ("read", p.obj, p.off, sz, i))
            if ty in ("i32", "i64", "i8", "i16") and not p.off.m and p.obj.kind in ("new", "stack", "arg") and p.obj.single and not self.overlap(c, p.off.c, sz):
                v = self.fresh(i, "ld"); c = st.wcell(p.obj); c.f[p.off.c] = (sz, v); return v
        if ty == "i1": return t.cond(("v", self.fid, i["id"]))
        return self.fresh(i, "ld")

    def touch(self, st, c, o, i):
        if not c.alive and o.single and o.tracked: st.events = (st.events, ("dead", o, i))

    def overlap(self, c, off, sz): return any(o < off + sz and off < o + s for o, (s, v) in c.f.items())

    def retype(self, v, ty, i):
        if ty == "ptr" and isinstance(v, Term) and not v.m and v.c == 0: return NULL
        if ty == "ptr": return v
        if ty == "i1": return v if isinstance(v, Cond) else neg(eq(v, const(0)))
        return self.asint(v)

    def find_seg(self, st, c, off, n):
        """The token written at exactly [off, off+n), under the path facts of the state; None if unknown."""
        for exact in (True, False):
            for so, sn, tok, guards in reversed(c.segs):
                g = [self.known(st, x) for x in guards]
                if any(x is False for x in g): continue
                if so is off and sn is n if exact else t.same(so, off, st.facts) is True and t.same(sn, n, st.facts) is True:
                    return tok if all(x is True for x in g) else None
                # disjointness is only certain for distinct cursors; anything else is a different place of the image
            if len(c.segs) < 2: break
        return None

    def store(self, st, p, v, sz, i):
        if not isinstance(p, Ptr):
            self.unknown_store(st, i); return
        if p.obj.kind in ("null",): return
        c = st.wcell(p.obj)
        self.touch(st, c, p.obj, i)
        if not p.off.m:
            off = p.off.c
            for o in [o for o, (s, _) in c.f.items() if o < off + sz and off < o + s]: del c.f[o]
            c.f[off] = (sz, v)
        else:
            c.segs += ((p.off, const(sz), ("val", v), ()),)
            if p.obj.kind != "new[]": c.f = {}
        c.init += ((p.off, const(sz)),)

    def unknown_store(self, st, i):
        for o, off in self.pts.val(i["ops"][1]):
            ob = self.pobj.get(o)
            if ob is not None and ob in st.heap:
                c = st.wcell(ob)
                if off is None: c.f = {}
                else: c.f.pop(off, None)
                c.dirty = True
                if ob.tracked: st.events = (st.events, ("blur", ob, i))

    def call(self, st, i, b):
        fn = i.get("fn") or ""; ops = i["ops"]
        put = lambda v: st.env.__setitem__(i["id"], v)
        if P.ALLOC.match(fn):
            if fn.startswith("_Znw") and ops[0]["k"] != "c": return put(self.fresh(i, "buffer"))
            size = self.asint(self.val(st, ops[0]))
            if not isinstance(size, Term): size = self.fresh(i, "size")
            ob = self.objs.get(i["id"])
            if ob is None:
                ob = self.objs[i["id"]] = Obj("heap%s_%d" % (self.tag, i["id"]), "new[]" if fn.startswith("_Zna") else "new", size, self.fn.loc(i))
                ob.tracked = i["id"] in self.tracked_sites
                ob.single = b not in self.inloop
                self.pobj[("H", i["id"])] = ob
            ob.size = size
            st.heap[ob] = Cell()
            st.events = (st.events, ("alloc", ob, i))
            return put(Ptr(ob, const(0)))
        if P.FREE.match(fn):
            p = self.val(st, ops[0])
            if isinstance(p, Ptr):
                if p.obj.kind == "null": return
                kind = "new[]" if fn.startswith("_Zda") else "new"
                st.events = (st.events, ("free", p.obj, p.off, kind, i, b in self.inloop))
                if p.obj in st.heap:
                    c = st.wcell(p.obj)
                    if not c.alive: st.events = (st.events, ("double", p.obj, i))
                    c.alive = False
            else: st.events = (st.events, ("free?", i))
            return
        if fn.startswith(("llvm.memcpy", "llvm.memmove")) or fn in ("memcpy", "memmove"):
            self.copy(st, self.val(st, ops[0]), self.val(st, ops[1]), self.asint(self.val(st, ops[2])), i)
            if i["ty"] == "ptr": put(self.val(st, ops[0]))
            return
        if fn.startswith("llvm.memset") or fn == "memset":
            d, v, n = self.val(st, ops[0]), self.asint(self.val(st, ops[1])), self.asint(self.val(st, ops[2]))
            if isinstance(d, Ptr):
                c = st.wcell(d.obj)
                c.init += ((d.off, n),)
                if d.off is const(0) and v is const(0):
                    c.f = {}; c.segs = (); c.zero = n; c.dirty = False
                elif not n.m and not d.off.m:
                    for o in [o for o, (s, _) in c.f.items() if o < d.off.c + n.c and d.off.c < o + s]: del c.f[o]
                    if v is const(0):
                        # known zero bytes: enough for the fields of a small object
                        pass
                else: c.dirty = True; c.f = {}; c.segs += ((d.off, n, ("fill", v), ()),)
            else: self.unknown_store(st, {"ops": [None, ops[0]], "id": i["id"]})
            if i["ty"] == "ptr": put(d)
            return
        if fn.startswith("llvm.umul.with.overflow") or fn.startswith("llvm.uadd.with.overflow"):
            x, y = self.asint(self.val(st, ops[0])), self.asint(self.val(st, ops[1]))
            if isinstance(x, Term) and isinstance(y, Term):
                return put((t.mul(x, y) if "umul" in fn else add(x, y), FALSE))
            return put((self.fresh(i), FALSE))
        if fn.startswith(("llvm.umax", "llvm.umin", "llvm.smax", "llvm.smin")):
            x, y = self.asint(self.val(st, ops[0])), self.asint(self.val(st, ops[1]))
            if isinstance(x, Term) and isinstance(y, Term):
                c = ult(x, y)
                return put(ite(c, y, x) if "max" in fn else ite(c, x, y))
            return put(self.fresh(i))
        if P.NORET.search(fn): return
        if i["ty"] != "void":
            put(t.cond(("v", self.fid, i["id"])) if i["ty"] == "i1" else self.fresh(i))
        if fn.startswith("llvm.") or fn in P.PURE_EXT or self.pts.nonwriting(i): return
        for n in self.pts.writes_args(i):
            for o, off in self.pts.val(ops[n]):
                ob = self.pobj.get(o)
                if ob is not None and ob in st.heap:
                    c = st.wcell(ob); c.f = {}; c.segs = (); c.dirty = True

    def copy(self, st, d, s, n, i):
        if not isinstance(n, Term): n = self.fresh(i, "len")
        st.events = (st.events, ("copy", d, s, n, i))
        if not isinstance(d, Ptr):
            self.unknown_store(st, {"ops": [None, i["ops"][0]], "id": i["id"]}); return
        src = st.heap.get(s.obj) if isinstance(s, Ptr) else None
        if src is not None: self.touch(st, src, s.obj, i)
        if d.obj in st.heap: self.touch(st, st.heap[d.obj], d.obj, i)
        # what is being copied
        tok = None; fields = None
        if src is not None:
            if not s.off.m and not n.m:
                if s.off.c in src.f and src.f[s.off.c][0] == n.c: tok = ("val", src.f[s.off.c][1])
                elif src.f and not src.segs:
                    fields = {o - s.off.c: fv for o, fv in src.f.items() if s.off.c <= o and o + fv[0] <= s.off.c + n.c}
            if tok is None:
                tok = self.find_seg(st, src, s.off, n)
        if tok is None and isinstance(s, Ptr): tok = ("bytes", s.obj, s.off, n)
        c = st.wcell(d.obj)
        c.init += ((d.off, n),)
        if not d.off.m and not n.m:
            for o in [o for o, (z, _) in c.f.items() if o < d.off.c + n.c and d.off.c < o + z]: del c.f[o]
            if tok is not None and tok[0] == "val": c.f[d.off.c] = (n.c, tok[1])
            elif fields is not None:
                for o, fv in fields.items(): c.f[d.off.c + o] = fv
            elif tok is not None and n.c in (1, 2, 4, 8): c.f[d.off.c] = (n.c, t.at("bytesof", str(tok[1]), tok[2], n))
            else: c.segs += ((d.off, n, tok, ()),)
        else:
            c.segs += ((d.off, n, tok, ()),)
            if d.off is const(0): c.f = {}


def empty(n, c, when):
    """Does condition c, having the truth value 'when', imply that length n is zero?"""
    if c is None or c is TRUE: return False
    z = eq(n, const(0))
    return z is TRUE or z.key == c.key and (c.pos == when) == z.pos


def events(st):
    """Events of a state, oldest first; ('choice', cond, list, list) where branches were merged."""
    out = []; e = st.events
    while e: out.append(e[1]); e = e[0]
    return out[::-1]


def flat_events(l):
    for e in l:
        if e[0] == "choice":
            yield from flat_events(e[2]); yield from flat_events(e[3])
        else: yield e
