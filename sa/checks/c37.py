"""A loaded filter is, in everything queries look at, the filter that was saved.  (a) Points-to analysis of every query and
iterator operation lists the numbers, arrays and parts of a filter they read.  (b) For each suffix type and each abstract
filter construction can return, saving and loading are interpreted symbolically, and the loaded object graph is compared
with the saved one: obligations are the members of list (a).  With
(a), (b) and the absence of other inputs (C02, C16) both filters take the same decisions."""
import api, life
from checks import c04
from absint import Ptr


class Only:
    """Passes on what concerns members that queries read."""
    def __init__(self, ctx, read): self.ctx, self.read, self.fields, self.arrays = ctx, read, 0, 0

    def looked_at(self, key): return key.split()[0] in self.read

    def bad(self, key, text):
        if self.looked_at(key): self.ctx.bad(key, text)
        else: self.ctx.cover["differences no query reads"] = self.ctx.cover.get("differences no query reads", 0) + 1

    def undec(self, key, text=""):
        if self.looked_at(key): self.ctx.undec(key, text)

    def ok(self, text=None, n=1): self.ctx.ok(text, n)


def run(ctx):
    ctx.level = "proof"
    ctx.rule("every number and array of a filter that a query or iterator operation reads is the same after saving and loading")
    ctx.trusted.append("C02 and C16: operations have no inputs besides the filter, the iterator and the arguments")
    ctx.assume += ["sizes are unbounded integers", "the source buffer is aligned to 8 bytes"]
    read, loads, ops = set(), 0, 0
    for n, f, p in api.analysed([x for x in api.QUERIES if x not in ("q_serialize", "q_serializedSize")] + api.ITEROPS):
        ops += 1
        def note(T):
            for o, off in T:
                if o[0] != "R" or o[2] != "filter": continue
                nm = p.field(o, off)
                for k in range(1, len(o[3]) + 1): read.add(life.pname(o[3][:k]))
                if nm is not None: read.add(life.pname(o[3] + (nm,)))
                elif p.fclass(o[3]) is not None and off is None:
                    for _, _, m, _ in p.leaves(p.fclass(o[3])): read.add(life.pname(o[3] + (m,)))
        for i, T in p.loads():
            loads += 1; note(T)
        for i in f.insts():
            if i["op"] in ("call", "invoke"):
                for a, ty in zip(i["ops"], i.get("aty", [])):
                    if ty == "ptr": note(p.val(a))
    ctx.need(ops, 20, "operations"); ctx.need(loads, 1000, "loads"); ctx.need(len(read), 20, "members read by queries")
    only = Only(ctx, read); filters = done = 0
    for ty in life.KINDS:
        for l in life.built(ty):
            filters += 1
            l.paths = life.paths(l.heap, l.ptr); l.vague = False
            for v, st, I in life.saved(l):
                if not isinstance(v, Ptr) or v.obj not in st.heap or st.heap[v.obj].dirty: l.vague = True
            ls = [] if l.vague else life.loaded(l)
            if not ls: ctx.undec("loading of " + l.what)
            for v, st, L in ls:
                if not isinstance(L.ptr, Ptr): ctx.undec("loaded filter of " + l.what); continue
                done += 1; c04.compare(only, l, L)
    ctx.cover["abstract filters"] = filters; ctx.cover["saved and loaded"] = done
    ctx.cover["numbers compared"] = only.fields; ctx.cover["arrays compared"] = only.arrays
    ctx.samples.append("read by queries: " + ", ".join(sorted(read)))
