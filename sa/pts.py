"""Field-sensitive, flow-insensitive points-to and effect analysis of one fully inlined function.

Abstract objects
  ('A',id) stack slot   ('H',id) heap allocation site   ('G',name) global   ('X',id) result of an opaque external
  ('R',argindex,role)   memory reachable from an argument, by role:
       filter - the filter: one abstract object per access path, typed by the debug information,
                ('R',argindex,'filter',path) with path a tuple of member names; arrays are the leaves
       iter   - an iterator passed in: its own fields
       iterown- buffers owned by such an iterator
       key    - a caller's key / key list / source buffer (one object, everything reachable)
       out    - a caller's result slot
A target is (object, offset) with offset None = unknown.
"""
from collections import defaultdict
import re
from ir import Broken, flat, demangle

ALLOC = re.compile(r"^_Zn[wa]")            # operator new / new[]
FREE = re.compile(r"^_Zd[la]")             # operator delete / delete[]
NORET = re.compile(r"__assert_fail|_ZSt\d+__throw_|_ZSt9terminate|abort|__cxa_throw|llvm\.trap|__cxa_bad")
PURE_EXT = {"memcmp", "strlen", "strcmp", "strncmp", "bcmp", "memchr"}
ALLOC_ARGS = {}
INTPROP = {"add", "and", "or", "xor", "zext", "sext", "trunc"}


class PTS:
    def __init__(self, fn, roles, depth_cap=12):
        self.fn, self.mod = fn, fn.mod
        self.roles = roles
        self.v = defaultdict(set)      # value -> targets
        self.mem = defaultdict(lambda: defaultdict(set))
        self.ext = []                  # opaque external calls met
        self.leafcache = {}
        self.iterleaf = {o: t for o, s, n, t in self.mod.leaf_fields("surf::SuRF::Iter")}
        if not self.iterleaf: raise Broken("no debug information for the iterator class")
        for n, a in enumerate(fn.args):
            r = roles.get(n)
            if a["ty"] == "ptr":
                self.v[a["id"]] = {(("R", n, "filter", ()) if r == "filter" else ("R", n, r or "out"), 0)}
        self.solve()

    # ---- memory
    def fclass(self, path):
        """Class of the filter part at this access path (None: an array of scalars)."""
        c = "surf::SuRF"
        for p in path:
            t = {n: t for o, s, n, t in self.leaves(c)}.get(p)
            if t is None: return None
            c = t[:-1].strip()
            if c.startswith("const "): c = c[6:]
            if c not in self.mod.classes: return None
        return c

    def leaves(self, cls):
        if cls not in self.leafcache: self.leafcache[cls] = self.mod.leaf_fields(cls)
        return self.leafcache[cls]

    def field(self, o, off):
        """Member name of the scalar at this offset of a filter part, or None."""
        c = self.fclass(o[3])
        if c is None: return None
        for fo, sz, n, t in self.leaves(c):
            if off is not None and fo <= off < fo + max(sz, 1): return n
        return None

    def part(self, arg, path, off):
        """Filter parts a pointer loaded from this part may point to."""
        c = self.fclass(path)
        if c is None or len(path) > 6: return {(("R", arg, "filter", path), None)}
        out = set()
        for fo, sz, n, t in self.leaves(c):
            if t.endswith("*") and (off is None or off == fo):
                out.add((("R", arg, "filter", path + (n,)), 0))
        return out or {(("R", arg, "filter", path), None)}

    def init_load(self, o, off):
        """Pointers initially stored at (o, off) of argument memory."""
        if o[0] != "R": return set()
        role = o[2]
        if role == "filter": return self.part(o[1], o[3], off)
        if role == "iter":
            out = set()
            for fo, t in self.iterleaf.items():
                if off is not None and fo != off or not t.endswith("*"): continue
                if "surf::LoudsDense" in t: out.add((("R", o[1], "filter", ("louds_dense_",)), 0))
                elif "surf::LoudsSparse" in t: out.add((("R", o[1], "filter", ("louds_sparse_",)), 0))
                elif "surf::" in t: out.add((("R", o[1], "filter", ()), 0))
                else: out.add((("R", o[1], "iterown"), None))
            return out or {(("R", o[1], "iterown"), None)}
        return {(("R", o[1], role), None)}

    def load(self, targets, isptr):
        out = set()
        for o, off in list(targets):
            m = self.mem.get(o)
            if m is not None:
                if off is None:
                    for s in m.values(): out |= s
                else:
                    if off in m: out |= m[off]
                    if None in m: out |= m[None]
            if isptr: out |= self.init_load(o, off)
        return out

    def store(self, targets, vals):
        ch = False
        for o, off in targets:
            s = self.mem[o][off]
            unk = {x for x, xo in s if xo is None}
            new = {x for x in vals if x not in s and (x[1] is None or x[0] not in unk)}
            if new:
                s |= new; ch = True; self.collapse(s)
        return ch

    def collapse(self, s):
        by = defaultdict(int)
        for o, off in s: by[o] += 1
        for o, n in by.items():
            if n > 24:
                for t in [t for t in s if t[0] == o]: s.discard(t)
                s.add((o, None))

    def val(self, o):
        k = o["k"]
        if k in ("i", "a"): return self.v[o["id"]]
        if k == "g": return {(("G", o["n"]), 0)}
        if k == "ce":
            if o["op"] == "getelementptr":
                base = self.val(o["ops"][0])
                return {(b, None if off is None or o.get("idx") or "off" not in o else off + o["off"]) for b, off in base}
            s = set()
            for x in o["ops"]: s |= self.val(x)
            return {(b, None) for b, _ in s}
        return set()

    def add(self, i, s):
        t = self.v[i["id"]]
        n = len(t)
        unk = {o for o, off in t if off is None}
        t |= {x for x in s if x[1] is None or x[0] not in unk}
        if len(t) > n:
            self.collapse(t)
            return True
        return False

    def solve(self):
        for rnd in range(60):
            ch = False
            self.ext = []
            for b in self.fn.order:
                for i in self.fn.blocks[b]:
                    ch |= self.step(i)
            if not ch: return
        raise Broken("points-to did not converge in " + self.fn.dem)

    def step(self, i):
        op = i["op"]
        if op == "alloca": return self.add(i, {(("A", i["id"]), 0)})
        if op == "getelementptr":
            base = self.val(i["ops"][0])
            if not base: return False
            if i.get("badgep") or i["idx"]:
                # a variable index stays inside the same object, at an unknown place
                return self.add(i, {(o, None) for o, _ in base})
            return self.add(i, {(o, None if off is None else off + i["off"]) for o, off in base})
        if op == "load":
            return self.add(i, self.load(self.val(i["ops"][0]), i["ty"] == "ptr"))
        if op == "store":
            vals = self.val(i["ops"][0])
            return self.store(self.val(i["ops"][1]), set(vals)) if vals else False
        if op == "phi":
            s = set()
            for x, _ in i["in"]: s |= self.val(x)
            return self.add(i, s) if s else False
        if op == "select":
            return self.add(i, self.val(i["ops"][1]) | self.val(i["ops"][2]))
        if op in ("ptrtoint", "inttoptr", "bitcast", "freeze", "addrspacecast"):
            return self.add(i, set(self.val(i["ops"][0])))
        if op == "sub":      # pointer minus integer keeps the pointer; pointer minus pointer is a plain distance
            d = self.fn.inst.get(i["ops"][1].get("id")) if i["ops"][1]["k"] == "i" else None
            if d is not None and d["op"] == "ptrtoint": return False
            a, b = self.val(i["ops"][0]), self.val(i["ops"][1])
            return self.add(i, {(o, None) for o, _ in a}) if a and not b else False
        if op in INTPROP:
            s = set()
            for x in i["ops"]:
                for o, off in self.val(x): s.add((o, None))
            return self.add(i, s) if s else False
        if op in ("extractvalue", "insertvalue", "extractelement", "insertelement", "shufflevector", "cmpxchg", "atomicrmw"):
            s = set()
            for x in i["ops"]: s |= self.val(x)
            return self.add(i, {(o, None) for o, _ in s}) if s else False
        if op in ("call", "invoke"): return self.call(i)
        return False

    def call(self, i):
        fn = i.get("fn"); ops = i["ops"]
        if fn is None:
            self.ext.append(i); return self.opaque(i)
        if ALLOC.match(fn) or fn in ("malloc", "calloc", "realloc"):
            # container buffers (operator new of a computed size) are one summary object: only the objects a filter is
            # made of (operator new of a fixed size, and new[]) need to be told apart
            if fn.startswith("_Znw") and ops[0]["k"] != "c": return self.add(i, {(("H", "buffers"), None)})
            return self.add(i, {(("H", i["id"]), 0)})
        if FREE.match(fn) or fn == "free" or NORET.search(fn): return False
        if fn.startswith(("llvm.memcpy", "llvm.memmove")) or fn in ("memcpy", "memmove"):
            ch = False
            dst, src = self.val(ops[0]), self.val(ops[1])
            n = int(ops[2]["v"]) if ops[2]["k"] == "c" else None
            for so, soff in list(src):
                m = dict(self.mem.get(so, {}))
                for off, s in m.items():
                    if soff is None or off is None or n is None: rel = None
                    else:
                        rel = off - soff
                        if not 0 <= rel < n: continue
                    if n is None and soff is not None and off is not None: rel = off - soff
                    for do, doff in dst:
                        ch |= self.store({(do, None if rel is None or doff is None else doff + rel)}, set(s))
                if so[0] == "R" and so[2] in ("filter", "iter"):
                    # whole objects copied out of argument memory: pointers come along when the pieces are pointer sized
                    # and typed as pointers; array payloads (words, labels, counters) hold none
                    if so[2] == 'iter':
                        for off, t in self.iterleaf.items():
                            if soff is None or n is None or soff <= off < soff + n:
                                s = self.init_load(so, off)
                                for do, doff in dst:
                                    ch |= self.store({(do, None if doff is None or soff is None else doff + off - soff)}, s)
            if fn in ("memcpy", "memmove"): ch |= self.add(i, set(dst))
            return ch
        if fn.startswith("llvm."):
            if fn.startswith(("llvm.ptrmask", "llvm.launder", "llvm.strip")): return self.add(i, {(o, None) for o, _ in self.val(ops[0])})
            s = set()
            if fn.startswith(("llvm.umin", "llvm.umax", "llvm.smin", "llvm.smax")):
                for x in ops: s |= self.val(x)
                return self.add(i, s) if s else False
            return False
        if fn in PURE_EXT: return False
        self.ext.append(i)
        return self.opaque(i)

    def allocator_args(self, fn):
        """Positions of stateless std::allocator reference parameters of a library function."""
        if fn not in ALLOC_ARGS:
            d = demangle(fn); r = set()
            if fn.startswith(("_ZNSt", "_ZSt", "_ZNKSt")) and d.endswith(")"):
                depth, n, cur, params, k = 0, 0, "", [], len(d) - 1
                bal = 0
                while k >= 0:                      # the parameter list is the last balanced (...)
                    bal += d[k] == ")"; bal -= d[k] == "("
                    if bal == 0: break
                    k -= 1
                for ch in d[k + 1:-1]:
                    if ch in "<(": depth += 1
                    if ch in ">)": depth -= 1
                    if ch == "," and depth == 0: params.append(cur.strip()); cur = ""
                    else: cur += ch
                params.append(cur.strip())
                member = fn.startswith(("_ZNSt", "_ZNKSt")) and not re.search(r"::__(destroy|relocate|copy|uninit|fill|construct|equal|find|assign)\w*(<|$)", d[:k])
                r = {j + member for j, q in enumerate(params) if re.match(r"std::allocator<.*&$", q)}
            ALLOC_ARGS[fn] = r
        return ALLOC_ARGS[fn]

    def nonwriting(self, i):
        fn = i.get("fn") or ""
        return i.get("ro") or i.get("rn") or fn in PURE_EXT or fn.startswith("_ZNK") or fn.startswith("__cxa_guard") or fn == "__cxa_atexit"

    def writes_args(self, i):
        """Argument positions an opaque call may write through."""
        fn = i.get("fn") or ""
        if self.nonwriting(i): return []
        out = []
        for n, o in enumerate(i["ops"]):
            if i["aty"][n] != "ptr": continue
            if i["aro"][n] or n in self.allocator_args(fn): continue
            if fn.startswith("_ZNSt") or fn.startswith("_ZNS"):      # std member function: const reference parameters are not written
                d = demangle(fn)
                inside = d[d.find("(", 0):]
                if n > 0 and not re.search(r"[^ ]&|\*", inside.replace("char const*", "").replace("const&", "")): continue
            out.append(n)
        return out

    def opaque(self, i):
        s = set(); skip = self.allocator_args(i.get("fn") or "")
        for n in range(len(i["ops"])):
            if n not in skip: s |= {(o, None) for o, _ in self.val(i["ops"][n])}
        ch = False
        fresh = {(("X", i["id"]), None)}
        w = self.writes_args(i)
        std = (i.get("fn") or "").startswith(("_ZNSt", "_ZNS", "_ZSt"))
        for n in w:
            # it may store fresh memory (a reallocated buffer); library containers store no foreign pointers
            ch |= self.store({(o, None) for o, _ in self.val(i["ops"][n])}, fresh if std else fresh | s)
        if i["ty"] in ("ptr",) or i["ty"].startswith(("{", "[")):
            ch |= self.add(i, s | fresh)
        return ch

    # ---- effects
    def writes(self):
        """[(inst, target set, what)] of every construct that may write memory."""
        out = []
        for i in self.fn.insts():
            op = i["op"]
            if op == "store": out.append((i, self.val(i["ops"][1]), "store"))
            elif op in ("cmpxchg", "atomicrmw"): out.append((i, self.val(i["ops"][0]), "atomic update"))
            elif op in ("call", "invoke"):
                fn = i.get("fn") or ""
                if fn.startswith(("llvm.memcpy", "llvm.memmove", "llvm.memset")) or fn in ("memcpy", "memmove", "memset"):
                    out.append((i, self.val(i["ops"][0]), fn.split(".")[1] if "." in fn else fn))
                elif FREE.match(fn) or fn == "free":
                    out.append((i, self.val(i["ops"][0]), "release"))
                elif ALLOC.match(fn) or NORET.search(fn) or fn.startswith("llvm.") or fn in PURE_EXT: continue
                else:
                    for n in self.writes_args(i):
                        t = self.val(i["ops"][n])
                        # the callee may write the object and whatever it owns
                        out.append((i, set(t), "call of " + (demangle(fn) if fn else "a function pointer")))
        return out

    def loads(self):
        return [(i, self.val(i["ops"][0])) for i in self.fn.insts() if i["op"] == "load"]

    def reach(self, targets):
        seen, st = set(), [o for o, _ in targets]
        while st:
            o = st.pop()
            if o in seen: continue
            seen.add(o)
            for s in self.mem.get(o, {}).values():
                st += [x for x, _ in s]
        return seen

    def oname(self, o):
        if o[0] == "R":
            if o[2] == "filter": return "filter" + "".join("->" + p for p in o[3])
            return {"iter": "iterator", "iterown": "iterator buffer", "key": "caller's argument", "out": "result slot"}.get(o[2], o[2])
        if o[0] == "G": return "global " + demangle(o[1])
        if o == ("H", "buffers"): return "a container buffer"
        if o[0] == "H": return "heap object allocated at " + self.fn.loc(self.fn.inst[o[1]])
        if o[0] == "A": return "local variable"
        return "object returned by an external function"

    def tname(self, t):
        o, off = t
        if o[0] == "R" and o[2] == "filter":
            f = self.field(o, off)
            if f: return self.oname(o) + "->" + f
            if self.fclass(o[3]) is None: return self.oname(o) + "[]"
        return self.oname(o)
