"""Build and load the IR of /repo's sources.  Nothing of /repo is executed."""
import hashlib, json, os, re, shutil, subprocess, sys, tempfile, fcntl
from collections import defaultdict

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SURF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
CLANG = shutil.which("clang++") or "/usr/lib/llvm-18/bin/clang++"


class Broken(Exception):
    """The analysis could not be carried out (neither a pass nor a violation)."""


def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, **kw)


def _sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else str(p).encode()); h.update(b"\0")
    return h.hexdigest()[:24]


def _files(*dirs):
    out = []
    for d in dirs:
        for root, ds, fs in os.walk(d):
            ds[:] = sorted(x for x in ds if x not in (".git", "_build"))
            for f in sorted(fs):
                if f.endswith((".hpp", ".h", ".cpp", ".cc", ".txt", ".inc", ".list")):
                    out.append(os.path.join(root, f))
    return out


def tool(name, libs):
    os.makedirs(BUILD, exist_ok=True)
    src = os.path.join(VERIF, "irx", name + ".cpp")
    key = _sha(open(src, "rb").read())
    exe = os.path.join(BUILD, "%s-%s" % (name, key))
    if os.path.exists(exe):
        return exe
    with open(os.path.join(BUILD, name + ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(exe):
            return exe
        flags = run(["llvm-config", "--cxxflags"]).stdout.split()
        flags = [f for f in flags if not f.startswith("-std=")]
        ld = run(["llvm-config", "--ldflags"]).stdout.split()
        r = run(["g++", "-std=c++17", "-O1", "-w"] + flags + [src, "-o", exe + ".tmp"] + ld + libs)
        if r.returncode:
            raise Broken("cannot build %s: %s" % (name, r.stderr[-2000:]))
        os.rename(exe + ".tmp", exe)
    return exe


def irx():
    return tool("irx", ["-lLLVM-18"])


def source_key(extra=()):
    h = hashlib.sha256()
    for f in _files(os.path.join(REPO, "include"), os.path.join(REPO, "bench"), os.path.join(VERIF, "tu"), os.path.join(VERIF, "sa", "keep")):
        h.update(f.encode()); h.update(open(f, "rb").read())
    for root in ("simple_example.cpp",):
        p = os.path.join(REPO, root)
        if os.path.exists(p):
            h.update(open(p, "rb").read())
    for e in extra:
        h.update(str(e).encode())
    return h.hexdigest()[:24]


BASE_FLAGS = ["-std=c++14", "-mpopcnt", "-w", "-g", "-O1", "-Xclang", "-disable-llvm-passes", "-fignore-exceptions"]


def cached(key, suffix, make):
    d = os.path.join(BUILD, "cache"); os.makedirs(d, exist_ok=True)
    p = os.path.join(d, key + suffix)
    if os.path.exists(p):
        return p
    with open(os.path.join(d, key + ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if not os.path.exists(p):
            t = p + ".tmp%d" % os.getpid()
            make(t); os.rename(t, p)
            prune(d)
    return p


def prune(d, keep=160):
    fs = [os.path.join(d, f) for f in os.listdir(d)]
    fs.sort(key=lambda f: os.path.getmtime(f) if os.path.exists(f) else 0)
    for f in fs[:-keep]:
        try: os.unlink(f)
        except OSError: pass


def bitcode(tu, defines=(), flags=()):
    src = tu if os.path.isabs(tu) else os.path.join(VERIF, "tu", tu)
    inc = ["-I" + os.path.join(REPO, "include"), "-I" + os.path.join(REPO, "bench")]
    opts = BASE_FLAGS + list(flags) + ["-D" + d if not d.startswith("-") else d for d in defines] + inc
    key = _sha("bc", source_key(), src, open(src, "rb").read(), " ".join(opts))

    def make(out):
        r = run([CLANG] + opts + ["-emit-llvm", "-c", src, "-o", out])
        if r.returncode:
            raise Broken("does not compile: %s\n%s" % (src, r.stderr[-3000:]))
    return cached(key, ".bc", make)


P_SSA = "function(sroa,early-cse,simplifycfg)"
P_CANON = "function(sroa,early-cse<memssa>,simplifycfg,instcombine,simplifycfg,loop-simplify)"


def load(tu, roots, keep=(), inline=(), passes=P_CANON, std_max=10**6, defines=(), drop_asserts=False, flags=(), no_inline=False, marks=False):
    bc = bitcode(tu, defines, flags)
    full = passes if no_inline else "inferattrs,always-inline,globaldce," + passes
    key = _sha("ir", open(bc, "rb").read(), "\n".join(roots), "\n".join(keep), "\n".join(inline), full, std_max, drop_asserts, no_inline, marks, open(os.path.join(VERIF, "irx", "irx.cpp"), "rb").read())

    def make(out):
        with tempfile.TemporaryDirectory() as td:
            a = [irx(), bc, out, "--passes=" + full, "--std-max=%d" % std_max]
            for nm, l in (("roots", roots), ("keep", keep), ("inline", inline)):
                if l:
                    p = os.path.join(td, nm); open(p, "w").write("\n".join(l) + "\n"); a.append("--%s=%s" % (nm, p))
            if drop_asserts: a.append("--drop-asserts")
            if no_inline: a.append("--no-inline")
            if marks: a.append("--mark-locals")
            r = run(a)
            if r.returncode:
                raise Broken("irx failed: " + r.stderr[-2000:])
    return Module(json.load(open(cached(key, ".json", make))))


class Module:
    def __init__(self, j):
        self.j = j
        self.locs = j["locs"]
        self.globals = {g["name"]: g for g in j["globals"]}
        self.funcs = {}
        self.decls = {}
        for f in j["functions"]:
            if f["decl"]: self.decls[f["name"]] = f
            else: self.funcs[f["name"]] = Func(self, f)
        self.classes = {c["name"]: c for c in j["classes"]}
        self.dem = {f["name"]: f["dem"] for f in j["functions"]}

    def find(self, pred):
        return [f for f in self.funcs.values() if (pred(f.dem) if callable(pred) else re.search(pred, f.dem))]

    def one(self, pat):
        l = self.find(pat)
        if len(l) != 1:
            raise Broken("anchor %r matches %d functions" % (pat, len(l)))
        return l[0]

    def leaf_fields(self, cls, base=0, prefix=""):
        """[(offset, size, name, type)] of all scalar members, bases and nested classes expanded."""
        out = []
        c = self.classes.get(cls)
        if not c: return out
        for m in c["members"]:
            nm = prefix if m["base"] else (prefix + "." if prefix else "") + m["name"]
            sub = self.classes.get(m["type"])
            if sub and sub["members"]:
                out += self.leaf_fields(m["type"], base + m["off"], nm)
            else:
                out.append((base + m["off"], m["msz"] or m["sz"], nm, m["type"]))
        return out


def opkey(o):
    k = o["k"]
    if k in ("i", "a"): return o["id"]
    return None


class Func:
    def __init__(self, mod, j):
        self.mod, self.name, self.dem = mod, j["name"], j["dem"]
        self.file, self.line = j.get("file"), j.get("line")
        self.args = j["args"]; self.ret = j["ret"]
        self.blocks = {b["id"]: b["insts"] for b in j.get("blocks", [])}
        self.order = [b["id"] for b in j.get("blocks", [])]
        self.entry = self.order[0] if self.order else None
        self.inst = {}; self.blk = {}
        for b, l in self.blocks.items():
            for n, i in enumerate(l):
                self.inst[i["id"]] = i; self.blk[i["id"]] = b; i["n"] = n
        self.succ = {}; self.pred = defaultdict(list)
        for b, l in self.blocks.items():
            t = l[-1]; s = []
            if t["op"] == "br": s = t["succ"]
            elif t["op"] == "switch": s = [t["def"]] + [c[1] for c in t["cases"]]
            elif t["op"] == "invoke": s = [t["normal"], t["unwind"]]
            self.succ[b] = s
        for b in self.order:
            for s in self.succ[b]:
                self.pred[s].append(b)
        self._dom = self._pdom = self._loops = self._users = None

    # ---- shape
    def rpo(self):
        seen, out = set(), []
        st = [(self.entry, iter(self.succ[self.entry]))]; seen.add(self.entry)
        while st:
            b, it = st[-1]
            for s in it:
                if s not in seen:
                    seen.add(s); st.append((s, iter(self.succ[s]))); break
            else:
                out.append(b); st.pop()
        return out[::-1]

    @property
    def dom(self):
        if self._dom is None:
            self._dom = _domtree(self.rpo(), self.pred, self.entry)
        return self._dom

    def dominates(self, a, b):
        d = self.dom
        while b is not None:
            if a == b: return True
            b = d.get(b) if d.get(b) != b else None
        return False

    def inst_dominates(self, i, j):
        a, b = self.blk[i], self.blk[j]
        if a == b: return self.inst[i]["n"] < self.inst[j]["n"]
        return self.dominates(a, b)

    @property
    def loops(self):
        """{header: set(blocks)} natural loops, merged per header."""
        if self._loops is None:
            L = {}
            reach = set(self.rpo())
            for b in reach:
                for s in self.succ[b]:
                    if self.dominates(s, b):
                        body = L.setdefault(s, {s})
                        st = [b]
                        while st:
                            x = st.pop()
                            if x in body: continue
                            body.add(x); st += [p for p in self.pred[x] if p in reach]
            self._loops = L
        return self._loops

    def loop_of(self, b):
        best = None
        for h, body in self.loops.items():
            if b in body and (best is None or len(body) < len(self.loops[best])): best = h
        return best

    @property
    def users(self):
        if self._users is None:
            u = defaultdict(list)
            for i in self.inst.values():
                for o in operands(i):
                    for k in flat(o):
                        u[k].append(i)
            self._users = u
        return self._users

    def insts(self):
        for b in self.order:
            for i in self.blocks[b]:
                yield i

    def loc(self, i):
        """'file:line in function' of the innermost repo frame, plus the inline chain."""
        if "dl" not in i: return "%s (no line)" % self.dem.split("(")[0]
        n = i["dl"]; chain = []
        while n >= 0:
            f, l, fn, up = self.mod.locs[n]
            chain.append((f, l, fn)); n = up
        return fmt_chain(self.mod, chain)

    def chain(self, i):
        n = i.get("dl", -1); chain = []
        while n >= 0:
            f, l, fn, up = self.mod.locs[n]
            chain.append((f, l, fn)); n = up
        return chain


_demcache = {}


def demangle(n):
    if n not in _demcache:
        r = run(["c++filt", n]).stdout.strip() if n.startswith("_Z") else n
        _demcache[n] = r
    return _demcache[n]


def short(n):
    d = demangle(n)
    d = d.replace("std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char> >", "std::string")
    return d.split("(")[0]


def fmt_chain(mod, chain):
    rel = lambda f: f.replace(REPO + "/", "")
    repo = [(f, l, fn) for f, l, fn in chain if "/include/c++" not in f and "/lib/" not in f and "api.cpp" not in f and "/tu/" not in f]
    if not repo:
        f, l, fn = chain[0]
        return "%s:%s" % (rel(f), l)
    f, l, fn = repo[0]
    s = "%s:%s in %s" % (rel(f), l, short(fn))
    if len(repo) > 1:
        s += " (called from " + " <- ".join("%s at %s:%s" % (short(fn2), rel(f2), l2) for f2, l2, fn2 in repo[1:4]) + ")"
    return s


def operands(i):
    if i["op"] == "phi": return [x[0] for x in i["in"]]
    o = list(i.get("ops", []))
    if i["op"] == "switch": o += [c[0] for c in i["cases"]]
    return o


def flat(o):
    if o["k"] in ("i", "a"): return [o["id"]]
    if o["k"] == "ce":
        r = []
        for x in o["ops"]: r += flat(x)
        return r
    return []


def _domtree(rpo, pred, entry):
    idx = {b: n for n, b in enumerate(rpo)}
    dom = {entry: entry}
    ch = True
    while ch:
        ch = False
        for b in rpo:
            if b == entry: continue
            new = None
            for p in pred[b]:
                if p in dom:
                    if new is None: new = p
                    else:
                        x, y = p, new
                        while x != y:
                            while idx[x] > idx[y]: x = dom[x]
                            while idx[y] > idx[x]: y = dom[y]
                        new = x
            if new is not None and dom.get(b) != new:
                dom[b] = new; ch = True
    return dom


def cval(o):
    return int(o["v"]) if o["k"] == "c" else None
