"""Type and dataflow lint over the IR of every public operation (everything inlined).  Obligations:
(1) a byte of key data is never widened with its sign into an ordering comparison, an index, a shift or any arithmetic:
    every sign extension of an 8-bit value may only reach equality tests against other such bytes, or be cut back to 8 bits;
(2) no ordering comparison is made on signed 8-bit values, scalar or vector;
(3) no function that stops at a zero byte (strlen, strcmp, ...) is applied to key data;
(4) no byte of a key given by the caller, or of a copy of it, is compared with a constant, switched on, looked for by value
    or classified: no byte value is special."""
import api, ir, pts, re

CSTR = re.compile(r"^(strlen|strnlen|strcmp|strncmp|strcpy|strncpy|strcat|strncat|strchr|strrchr|strstr|strcasecmp|strncasecmp|strcoll|strdup|strtok|ato[ifl]+|strto\w+|memccpy|stpcpy|strspn|strcspn|strpbrk)$")
SEARCH = re.compile(r"^memchr$|^memrchr$|^_ZNKSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEE\d+(r?find|find_(first|last)_(not_)?of)E")
CLASS = re.compile(r"^is(alnum|alpha|ascii|blank|cntrl|digit|graph|lower|print|punct|space|upper|xdigit)$|^to(lower|upper|ascii)$|^__ctype_(b|tolower|toupper)_loc$")
SIGNED = ("slt", "sgt", "sle", "sge")


def run(ctx):
    ctx.level = "proof"
    ctx.rule("sign-extended bytes reach only equality tests or 8-bit truncation; no signed 8-bit ordering; no C-string function; no key byte compared with a constant, searched for or classified")
    ctx.trusted.append("std::string comparison orders bytes as unsigned (character traits of char)")
    ns = nc = nb = nf = 0
    for n, f, p in api.analysed(api.QUERIES + api.ITEROPS + [x for x in api.ROLES if x.startswith("c_create")]):
        nf += 1
        keys = keyobjects(f, p)
        for i in f.insts():
            if i["op"] == "sext" and i["oty"][0] in ("i8", "<16 x i8>"):
                ns += 1
                u = misuse(f, i)
                if u is None: ctx.ok()
                else: ctx.bad("%s: %s" % (api.human(n), where(f, i)), "%s: a byte is widened with its sign and then used by '%s' at %s" % (f.loc(i), u["op"], f.loc(u)))
            elif i["op"] == "icmp" and i["oty"][0] != "ptr":
                byte = i["oty"][0] in ("i8", "<16 x i8>", "<32 x i8>"); nc += byte
                if byte and i["pred"] in SIGNED: ctx.bad("%s: signed order %s" % (api.human(n), where(f, i)), "%s: bytes are ordered as signed values" % f.loc(i)); continue
                k = keyconst(f, p, keys, i)
                if k is not None: ctx.bad("%s: special byte %s" % (api.human(n), where(f, i)), "%s: a key byte is compared with the constant %d" % (f.loc(i), k)); continue
                if byte: ctx.ok()
            elif i["op"] == "switch" and keybyte(f, p, keys, i["ops"][0]):
                ctx.bad("%s: special byte %s" % (api.human(n), where(f, i)), "%s: a switch on a key byte" % f.loc(i))
            elif i["op"] in ("call", "invoke"):
                fn = i.get("fn") or ""
                if fn.startswith(("llvm.x86.sse2.pmins", "llvm.x86.sse2.pmaxs")): ctx.bad("%s: signed order %s" % (api.human(n), where(f, i)), f.loc(i))
                if CSTR.match(fn) and not all(literal(f, o) for o, ty in zip(i["ops"], i["aty"]) if ty == "ptr"):
                    ctx.bad("%s: %s %s" % (api.human(n), fn, where(f, i)), "%s: %s stops at a zero byte, which a key may contain" % (f.loc(i), fn))
                elif SEARCH.match(fn) and any(t[0] in keys for t in p.val(i["ops"][0])) and not any(keybyte(f, p, keys, o) for o in i["ops"][1:]):
                    ctx.bad("%s: special byte %s" % (api.human(n), where(f, i)), "%s: %s looks for a byte value in a key" % (f.loc(i), pts.demangle(fn)))
                elif CLASS.match(fn):
                    ctx.bad("%s: special byte %s" % (api.human(n), where(f, i)), "%s: %s gives some byte values a meaning" % (f.loc(i), fn))
                else: nb += 1
        ctx.samples.append("%s: %d instructions" % (api.human(n), len(f.inst)))
    ctx.obligations += nb
    ctx.need(nf, 20, "operations"); ctx.need(nc, 1, "byte comparisons"); ctx.cover["sign extensions of bytes"] = ns; ctx.need(nb, 100, "calls")


def where(f, i):
    """Names the construct by its function, without the line."""
    return " in ".join([x for x in [ir.short(c[2]) for c in f.chain(i)] if not x.startswith("std::")][:1]) or f.loc(i)


def literal(f, o):
    if o["k"] == "g": return o["n"] in f.mod.globals and f.mod.globals[o["n"]]["const"]
    return o["k"] == "ce" and literal(f, o["ops"][0])


def misuse(f, i):
    """The first use of a sign-extended byte that depends on its sign, or None."""
    tainted, work = {i["id"]}, [i]
    while work:
        x = work.pop()
        for u in f.users.get(x["id"], []):
            op = u["op"]
            if op in ("phi", "select", "freeze", "sext") or op == "or" and False:
                if u["id"] not in tainted: tainted.add(u["id"]); work.append(u)
                continue
            if op == "icmp" and u["pred"] in ("eq", "ne"):
                o = [y for y in u["ops"] if y.get("id") != x["id"] or y["k"] not in ("i",)]
                if all(isbyte(f, y, tainted) for y in o): continue
            if op == "trunc" and u["ty"] in ("i8", "<16 x i8>"): continue
            if op == "and" and any(y["k"] == "c" and int(y["v"]) <= 255 for y in u["ops"]): continue
            return u
    return None


def isbyte(f, o, tainted):
    if o["k"] == "c":
        w = o.get("w", 32); v = int(o["v"])
        if v >= 1 << (w - 1): v -= 1 << w
        return 0 <= v < 128
    if o["k"] != "i": return False
    d = f.inst[o["id"]]
    return o["id"] in tainted or d["op"] == "sext" and d["oty"][0] == "i8"


def keyobjects(f, p):
    """The caller's keys and what is copied from them inside the operation."""
    ks = {o for a in list(p.v.values()) for o, _ in a if o[0] == "R" and o[2] == "key"}
    while True:
        n = len(ks)
        for i in f.insts():
            if i["op"] in ("call", "invoke") and re.match(r"llvm\.mem(cpy|move)|memcpy$|memmove$", i.get("fn") or ""):
                if any(o in ks for o, _ in p.val(i["ops"][1])): ks |= {o for o, _ in p.val(i["ops"][0]) if o[0] in "AH"}
        if len(ks) == n: return ks


def keybyte(f, p, keys, o, depth=0):
    if o["k"] != "i" or depth > 6: return False
    d = f.inst[o["id"]]
    if d["op"] == "load": return d["ty"] == "i8" and any(t[0] in keys for t in p.val(d["ops"][0]))
    if d["op"] in ("sext", "zext", "trunc", "freeze"): return keybyte(f, p, keys, d["ops"][0], depth + 1)
    return False


def keyconst(f, p, keys, i):
    for a, b in (i["ops"], i["ops"][::-1]):
        if a["k"] == "c" and keybyte(f, p, keys, b): return int(a["v"])
    return None
