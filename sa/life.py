"""The life of a filter as abstract heaps: built, measured, saved, loaded, destroyed; once per suffix type."""
import ir, pts, api, absint, terms as t
from absint import Ptr, Obj, NULL, Cell

KINDS = {0: "no suffix", 1: "hash suffix", 2: "real suffix", 3: "mixed suffix"}


class Op:
    """One operation prepared for abstract interpretation."""

    def __init__(self, name, **kw):
        m = api.module(drop_asserts=not kw.get("asserts"))
        self.name = name
        self.f = next((f for f in m.funcs.values() if api.name(f) == name), None)
        if self.f is None: raise ir.Broken("operation %s is missing from the analysed module" % name)
        self.p = pts.PTS(self.f, (api.ROLES.get(name) or api.RAW[name]))
        self.ret = set()
        for b in self.f.order:
            x = self.f.blocks[b][-1]
            if x["op"] == "ret" and x.get("ops"): self.ret |= self.p.val(x["ops"][0])
        rel = {o for i, T, w in self.p.writes() if w == "release" for o, _ in T}
        self.released = rel
        self.sites = {o[1] for o in self.p.reach(self.ret) if o[0] == "H" and isinstance(o[1], int) and (o not in rel or kw.get("keep"))}

    def run(self, args, tag, heap=None, facts=None, sites=None):
        I = absint.Interp(self.f, self.p, self.sites if sites is None else sites, tag=tag)
        return I, I.run(args, heap=heap, facts=facts)


_ops = {}


def op(name, **kw):
    k = (name, bool(kw.get("asserts")), api.MARKS)
    if k not in _ops: _ops[k] = Op(name, **kw)
    return _ops[k]


class Life:
    """One abstract filter (a state after construction or loading)."""

    def __init__(self, what, ty, ptr, st, interp):
        self.what, self.ty, self.ptr, self.st, self.interp = what, ty, ptr, st, interp
        self.heap = {o: c for o, c in st.heap.items() if o.tracked}
        self.facts = dict(st.facts)


_built, _saved, _loaded = {}, {}, {}


def create(ty, tag, **kw):
    at = lambda n: t.at("arg", n)
    keys = Obj("keys", "arg", t.const(0))
    return op("c_create").run([Ptr(keys, t.const(0)), t.cond(("arg", "dense")), at("ratio"), t.const(ty), at("hlen"), at("rlen")], tag, **kw)


def built(ty):
    if (ty, api.MARKS) not in _built:
        I, out = create(ty, "c%d" % ty)
        _built[ty, api.MARKS] = [Life("built, %s, %d" % (KINDS[ty], n), ty, v, st, I) for n, (v, st) in enumerate(out)]
    return _built[ty, api.MARKS]


def saved(l):
    """[(image pointer, State, Interp)] of saving this filter."""
    if id(l) not in _saved:
        o = op("q_serialize")
        I, out = o.run([l.ptr], "s%d" % len(_saved), heap=l.heap, facts=l.facts)
        _saved[id(l)] = [(v, st, I) for v, st in out]
    return _saved[id(l)]


def vague(l):
    """Is the image written in a way the analysis does not follow?  Then nothing is known about what loading finds in it."""
    return any(not isinstance(v, Ptr) or v.obj not in st.heap or st.heap[v.obj].dirty for v, st, _ in saved(l))


def loaded(l):
    """[(image pointer, image state, Life of the loaded filter)]"""
    if id(l) not in _loaded:
        o = op("c_deserialize"); r = []
        for v, st, _ in saved(l):
            if not isinstance(v, Ptr): continue
            heap = {o_: c for o_, c in st.heap.items() if o_.tracked}
            I, out = o.run([v], "l%d_%d" % (len(_loaded), len(r)), heap=heap, facts=st.facts)
            for w, ls in out:
                L = Life("loaded " + l.what, l.ty, w, ls, I); L.src = v.obj; L.of = l
                L.heap = {o_: c for o_, c in ls.heap.items() if o_.tracked and o_ not in heap}
                L.pre = heap
                r.append((v, st, L))
        _loaded[id(l)] = r
    return _loaded[id(l)]


def reach(heap, ptr):
    """Objects reachable from ptr through fields."""
    seen, todo = [], [ptr]
    while todo:
        p = todo.pop()
        if not isinstance(p, Ptr) or p.obj in seen or p.obj is NULL.obj: continue
        seen.append(p.obj)
        c = heap.get(p.obj)
        if c: todo += [v for s, v in c.f.values()]
    return seen


# ------------------------------------------------------------------ relations on abstract filters
def paths(heap, ptr):
    """{object: shortest member path} of the filter, by the debug information's member names."""
    m = api.module(drop_asserts=True)
    out, todo = {}, [(ptr, (), "surf::SuRF")]
    while todo:
        p, path, cls = todo.pop(0)
        if not isinstance(p, Ptr) or p.obj is NULL.obj or p.obj in out: continue
        out[p.obj] = (path, cls)
        c = heap.get(p.obj)
        if c is None: continue
        lv = {o: (n, ty, s) for o, s, n, ty in (m.leaf_fields(cls) if cls in m.classes else [])}
        for off in sorted(c.f):
            v = c.f[off][1]
            if isinstance(v, Ptr):
                n, ty, _ = lv.get(off, ("+%d" % off, "", 8))
                k = ty[:-1].strip() if ty.endswith("*") else ""
                if k.startswith("const "): k = k[6:]
                todo.append((v, path + (n,), k))
    return out


def pname(path): return "->".join(path) or "filter"


def leaf(cls, off):
    """(name, type, size) of the member at this offset."""
    m = api.module(drop_asserts=True)
    if cls in m.classes:
        for o, s, n, ty in m.leaf_fields(cls):
            if o == off: return n, ty, s
    return "+%d" % off, "", 0


def leaves(cls):
    m = api.module(drop_asserts=True)
    return m.leaf_fields(cls) if cls in m.classes else []


def segments(c):
    """Everything written into an object, as (start, length, token, guards)."""
    return [(t.const(o), t.const(s), ("val", v), ()) for o, (s, v) in sorted(c.f.items())] + list(c.segs)


def of_state(term, tag):
    """Are all atoms of the term values of the run with this tag (and not of loops of a later one)?"""
    for a in t.atoms_in(term):
        if a.kind in ("arg",): continue
        if a.kind in t.DERIVED: continue
        if a.args and a.args[0] == tag: continue
        return False
    return True


def covered(size, pieces, facts, n=30, start=None, cond=()):
    """Do the pieces [(first byte, length)], and those [(first byte, length, conditions)] whose conditions hold, cover
    [start,size) for every assignment tried?  True, None (cannot tell) or a Val with the hole."""
    start = t.const(0) if start is None else start
    # chain by identity first
    at, todo = start, list(pieces)
    while at is not size:
        nxt = next((p for p in todo if p[0] is at), None)
        if nxt is None: break
        todo.remove(nxt); at = t.add(nxt[0], nxt[1])
    if at is size: return True
    cond = [c for c in cond if not any(s is c[0] and l is c[1] for s, l in pieces)]
    vs = t.valuations(facts, [size] + [x for p in pieces for x in p] + [x for p in cond for x in p[:2]] + [x for p in cond for x in p[2]], n, [size] + [p[1] for p in pieces])
    if not vs: return None
    for v in vs:
        end = v.term(size)
        iv = sorted([(v.term(s), v.term(s) + v.term(l)) for s, l in pieces] + [(v.term(s), v.term(s) + v.term(l)) for s, l, g in cond if all(v.cond(x) for x in g)])
        x = v.term(start)
        for a, b in iv:
            if a > x: break
            x = max(x, b)
        if x < end:
            v.hole = (x, end); return v
    return True


def content(l):
    """{array: number of bytes of it that saving puts into the image} (the rest of its block is padding)."""
    out = {}
    if hasattr(l, "src"):
        for o, c in l.heap.items():
            for so, n, tok, g in c.segs:
                if tok and tok[0] == "bytes" and so is t.const(0): out[o] = n
        return out
    for v, st, _ in saved(l):
        if not isinstance(v, Ptr): continue
        for so, n, tok, g in segments(st.heap[v.obj]):
            if tok and tok[0] == "bytes" and tok[2] is t.const(0): out.setdefault(tok[1], n)
    return out


def writers(l, ob):
    """Constructs that may write the object and are not accounted for in its initialised ranges."""
    I = l.interp; f, p = I.fn, I.pts
    sites = {k for k, o in I.pobj.items() if o is ob}
    c = l.heap[ob]; swept = {z[2] for z in c.sum}
    out = []
    for i, T, what in p.writes():
        if what == "release" or not {o for o, _ in T} & sites: continue
        b = f.blk[i["id"]]
        if what == "store":
            if i["id"] in swept or b not in I.inloop or rmw(f, p, i): continue
        elif not what.startswith("call") and b not in I.inloop: continue
        out.append(i)
    return out


def rmw(f, p, i):
    """Does this store only modify what the element already held?"""
    T = {o for o, _ in p.val(i["ops"][1])}
    seen, todo = set(), [i["ops"][0]]
    while todo:
        o = todo.pop()
        if o.get("k") != "i" or o["id"] in seen: continue
        seen.add(o["id"]); d = f.inst[o["id"]]
        if d["op"] == "load":
            if d["sz"] == i["ssz"] and T & {x for x, _ in p.val(d["ops"][0])}: return True
        elif d["op"] in ("or", "and", "xor", "add", "sub", "select", "zext", "trunc"): todo += d["ops"]
    return False
