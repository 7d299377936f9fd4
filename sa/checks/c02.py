"""Search for hidden inputs.  Every operation, including building, loading, saving and destroying, is compiled with
everything it calls inlined.  Obligations: each load whose target may be a global reads a constant; no external function
that yields time, randomness, environment or identity is called; no volatile or atomic state and no inline assembly is
read; in queries an address converted to an integer is used only in a difference of two addresses, and addresses of
different objects are not ordered."""
import api, pts, re

HIDDEN = re.compile(r"^(s?rand(om)?(_r)?|[delmnj]rand48|time|clock|clock_gettime|gettimeofday|(secure_)?getenv|getpid|gettid|pthread_self|__errno_location|f?open(at)?(64)?|read|sysconf|getrusage|uname|gethostname|getrandom|sched_getcpu|mallinfo2?|malloc_usable_size|llvm\.(readcyclecounter|readsteadycounter|x86\.rd\w+|returnaddress|frameaddress|thread\.pointer|threadlocal\.address)\S*|_ZNSt13random_device\S*|_ZNSt6chrono\S*|_ZNSt11this_thread\S*|_ZNK?St6locale\S*)$")


def run(ctx):
    ctx.level = "proof"
    ctx.rule("loads of globals are loads of constants; no source of time, randomness, environment or identity; addresses are only subtracted")
    ctx.trusted.append("standard containers and string functions keep no hidden state")
    nl = ng = nx = na = nf = nc = 0
    for n, f, p in api.analysed(list(api.ROLES)):
        nf += 1
        g = f.mod.globals
        for i, T in p.loads():
            nl += 1
            if i.get("vol") or i.get("atomic"): ctx.bad("%s: volatile or atomic load" % api.human(n), "%s reads memory that others may change" % f.loc(i)); continue
            b = [o for o, _ in T if o[0] == "G" and o[1] in g and not g[o[1]]["const"] and not empty_rep(o[1])]
            if b: ctx.bad("%s: reads %s" % (api.human(n), pts.demangle(b[0][1])), "%s: the result depends on the mutable variable %s" % (f.loc(i), pts.demangle(b[0][1])))
            else: ng += any(o[0] == "G" for o, _ in T)
        for i in f.insts():
            if i["op"] in ("call", "invoke"):
                nx += 1
                fn = i.get("fn")
                if fn is None: ctx.bad("%s: %s" % (api.human(n), "inline assembly" if i.get("asm") else "indirect call"), f.loc(i)); continue
                if HIDDEN.search(fn): ctx.bad("%s: calls %s" % (api.human(n), pts.demangle(fn)), "%s: %s is an input that is neither the filter nor an argument" % (f.loc(i), pts.demangle(fn)))
                if fn.startswith(("llvm.memcpy", "llvm.memmove")):
                    b = [o for o, _ in p.val(i["ops"][1]) if o[0] == "G" and o[1] in g and not g[o[1]]["const"]]
                    if b: ctx.bad("%s: reads %s" % (api.human(n), pts.demangle(b[0][1])), "%s: the result depends on the mutable variable %s" % (f.loc(i), pts.demangle(b[0][1])))
            elif i["op"] in ("atomicrmw", "cmpxchg"):
                ctx.bad("%s: atomic state" % api.human(n), "%s uses shared atomic state" % f.loc(i))
            elif i["op"] == "ptrtoint" and n[0] in "qi" and n != "q_serialize" and not container(f, i):
                na += 1
                u = address_use(f, i)
                if u: ctx.bad("%s: address arithmetic" % api.human(n), "%s: the numeric address of an object is used by '%s' at %s" % (f.loc(i), u["op"], f.loc(u)))
            elif i["op"] == "icmp" and i["pred"] not in ("eq", "ne") and n[0] in "qi" and not container(f, i):
                a, b = ({o for o, _ in p.val(x)} for x in i["ops"])
                if not a or not b: continue
                nc += 1
                if not a & b: ctx.bad("%s: order of addresses" % api.human(n), "%s: which of two different objects lies at the lower address decides" % f.loc(i))
        ctx.samples.append("%s: %d instructions" % (api.human(n), len(f.inst)))
    ctx.obligations += nl + nx + na + nc
    ctx.need(nf, 30, "operations"); ctx.need(nl, 1000, "loads"); ctx.need(nx, 1000, "calls"); ctx.cover["address conversions"] = na; ctx.cover["ordered addresses"] = nc; ctx.cover["loads of constants in globals"] = ng


def empty_rep(n): return "_S_empty_rep_storage" in n or n.startswith(("_ZTV", "_ZTI", "_ZTS"))


def container(f, i):
    """Address arithmetic of the standard containers (distances between iterators); hashing a pointer is not that."""
    c = f.chain(i)
    return bool(c) and "/c++/" in c[0][0] and not any("hash" in fn for _, _, fn in c)


def address_use(f, i):
    """A use of an address as a number other than in a difference of addresses."""
    seen, work = {i["id"]}, [i]
    while work:
        x = work.pop()
        for u in f.users.get(x["id"], []):
            op = u["op"]
            if op == "sub" and all(o["k"] == "i" and from_address(f, o["id"]) for o in u["ops"]): continue
            if op == "inttoptr": continue
            if op in ("phi", "select", "freeze", "add", "and", "sub"):
                if u["id"] not in seen: seen.add(u["id"]); work.append(u)
                continue
            if op == "icmp" and u["pred"] in ("eq", "ne"): continue
            return u
    return None


def from_address(f, n, depth=0):
    d = f.inst.get(n)
    if d is None or depth > 8: return False
    if d["op"] == "ptrtoint": return True
    if d["op"] in ("phi", "select", "freeze", "add", "and"): return any(o["k"] == "i" and from_address(f, o["id"], depth + 1) for o in (d.get("ops") or [x[0] for x in d.get("in", [])]))
    return False
