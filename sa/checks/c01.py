"""Effect analysis.  Every public query and iterator operation is compiled with everything it calls inlined into one
function; a field-sensitive points-to analysis gives, for each store, memory intrinsic, release and opaque external call,
the memory it may write.  The obligation for each such construct is that the memory is private to the call: a local, a
heap block the call itself allocated, or the caller's result slot (for ++, -- and clear also the iterator operated on).
The filter, keys, iterators passed in by const pointer, statics and globals must not be written."""
import api, pts, re


def run(ctx):
    ctx.level = "proof"
    ctx.rule("no write to filter / argument / global memory from a read-only operation, over all stores, memory intrinsics, releases and external calls")
    ctx.assume += ["library code outside the headers (libstdc++.so string growth, memcmp, operator new/delete) writes only through its non-const arguments",
                   "pointer arithmetic stays inside the object it starts from"]
    nw = nf = ne = 0
    for n, f, p in api.analysed(api.QUERIES + api.ITEROPS):
        nf += 1
        for i, T, what in p.writes():
            nw += 1
            own = n in api.MUTATES_ITER
            bad = [t for t in T if t[0][0] == "G" or t[0][0] == "R" and t[0][2] in ("filter", "key") or t[0][0] == "R" and t[0][2] in ("iter", "iterown") and not own]
            if not T and what != "release" and not const_null(i):
                ctx.bad("%s: %s to an address of unknown origin" % (n, what), f.loc(i)); continue
            if bad:
                t = sorted(bad, key=str)[0]
                ctx.bad("%s: %s writes %s" % (api.human(n), what, p.tname(t)), "%s at %s: a read-only operation may write %s" % (what, f.loc(i), p.tname(t)))
            else: ctx.ok()
        for i in p.ext:
            ne += 1
            fn = i.get("fn")
            if fn is None: ctx.bad("%s: indirect call" % api.human(n), "call through a pointer at %s: its effects are unknown" % f.loc(i))
            elif not p.nonwriting(i) and not known_ext(fn): ctx.bad("%s: calls %s" % (api.human(n), pts.demangle(fn)), "external call at %s may touch shared state" % f.loc(i))
            else: ctx.ok()
        ctx.samples.append("%s: %d instructions, %d writing constructs" % (n, len(f.inst), len(p.writes())))
    ctx.need(nf, 20, "operations"); ctx.need(nw, 500, "writing constructs"); ctx.cover["external calls"] = ne


def known_ext(fn):
    """Library templates and string functions touch what their arguments reach, which the write obligations cover."""
    return re.match(r"_ZNK?S[tsabdio]|_ZS[tsabdio]|_ZNK?9__gnu_cxx", fn) and not re.search(r"random|mutex|once|locale|ios_base|atomic|thread", fn) or pts.ALLOC.match(fn)


def const_null(i): return False
