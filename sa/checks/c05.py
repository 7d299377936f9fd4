"""Escape analysis.  The loader is compiled with everything it calls inlined into one function; a field-sensitive points-to
analysis follows the source pointer.  Obligations: no object reachable from the returned filter, and no global, holds a
pointer into the source buffer; nothing is written to the source; the writer stores no pointer into the image, neither as
a pointer store nor by copying a pointer member of the filter."""
import api, pts


def run(ctx):
    ctx.level = "proof"
    ctx.rule("no target of the source-buffer object in memory reachable from the loaded filter or globals; no write to the source; no pointer value in the image")
    (n, f, p), (n2, g, q), (n3, h, r) = api.analysed(["c_deserialize", "q_serialize", "c_life_loaded"])
    ret = results(f, p)
    objs = [o for o in p.reach(ret) if o[0] != "R"]
    ctx.need(len([o for o in objs if o[0] == "H"]), 8, "objects of a loaded filter")
    for o in objs + [o for o in p.mem if o[0] == "G"]:
        b = False
        for off, s in p.mem.get(o, {}).items():
            if any(t[0][0] == "R" for t in s):
                b = True; ctx.bad("source kept in " + p.oname(o), "a pointer into the source buffer is stored in %s and outlives loading" % p.oname(o))
        if not b: ctx.ok("%s holds no pointer into the source" % p.oname(o))
    if any(t[0][0] == "R" for t in ret): ctx.bad("source returned", "the loader may return a pointer into the source")
    for who, fn, pt in ((n, f, p), (n3, h, r)):
        for i, T, what in pt.writes():
            if any(t[0][0] == "R" for t in T): ctx.bad("source written by " + what, "%s: loading writes to (or releases) the source buffer" % fn.loc(i))
            else: ctx.ok()
    # the image
    img = {o for o, _ in results(g, q)}
    if not img or any(o[0] != "H" for o in img): ctx.bad("image not fresh", "serialize() may return memory that is not a block of its own")
    nw = 0
    for i in g.insts():
        if i["op"] == "store" and {o for o, _ in q.val(i["ops"][1])} & img:
            nw += 1
            if q.val(i["ops"][0]): ctx.bad("pointer stored in the image", "%s: an address is stored in the image" % g.loc(i))
            else: ctx.ok()
        elif i["op"] == "call" and (i.get("fn") or "").startswith(("llvm.memcpy", "llvm.memmove", "memcpy", "memmove")) and {o for o, _ in q.val(i["ops"][0])} & img:
            nw += 1
            n_ = int(i["ops"][2]["v"]) if i["ops"][2]["k"] == "c" else None
            b = None
            for o, off in q.val(i["ops"][1]):
                if o[0] == "R" and o[2] == "filter" and q.fclass(o[3]):
                    for fo, sz, nm, ty in q.leaves(q.fclass(o[3])):
                        if ty.endswith("*") and (off is None or n_ is None or off < fo + sz and fo < off + n_): b = nm
                for so, s in q.mem.get(o, {}).items():
                    if s and o[0] != "R" and (off is None or so is None or n_ is None or off <= so < off + n_): b = q.oname(o)
            if b: ctx.bad("pointer %s copied into the image" % b, "%s: the copy includes the pointer member %s" % (g.loc(i), b))
            else: ctx.ok()
    ctx.need(nw, 8, "constructs writing the image")


def results(f, p):
    s = set()
    for b in f.order:
        x = f.blocks[b][-1]
        if x["op"] == "ret" and x.get("ops"): s |= p.val(x["ops"][0])
    return s
