"""Compile-time witnesses.  Every public header is compiled as the only header of a translation unit (two compilers, the
language levels in use), and every ordered pair of headers is compiled together; the IR of a unit including everything, in
both orders, must contain no strong external definition (a second unit would define it again) and no header-level mutable
variable of internal linkage (each unit would have its own)."""
import ir, glob, os, shutil, tempfile, json
from concurrent.futures import ThreadPoolExecutor


def compile(text, cxx, std, name):
    flags = [cxx, "-fsyntax-only", "-x", "c++", "-std=" + std, "-mpopcnt", "-w", "-I" + os.path.join(ir.REPO, "include"), "-"]
    r = ir.subprocess.run(flags, input=text, stdout=ir.subprocess.PIPE, stderr=ir.subprocess.PIPE, text=True)
    if r.returncode == 0: return None
    e = [l for l in r.stderr.splitlines() if "error" in l]
    return (e or r.stderr.splitlines() or ["?"])[0].replace(ir.REPO + "/", "")


def run(ctx):
    ctx.level = "proof"
    ctx.rule("each header alone and each ordered pair compiles; no strong definition or writable internal variable at header level")
    ctx.trusted.append("g++ 13 front end")
    hs = sorted(os.path.basename(h) for e in ("*.hpp", "*.h") for h in glob.glob(os.path.join(ir.REPO, "include", e)))
    ctx.need(len(hs), 10, "headers")
    jobs = []
    for h in hs:
        use = '#include "%s"\n#include "%s"\nint unit_end;\n' % (h, h)
        for cxx, std in (("g++", "c++11"), ("g++", "c++17"), (ir.CLANG, "c++11"), (ir.CLANG, "c++14")):
            jobs.append(("header %s alone" % h, use, cxx, std))
    for a in hs:
        for b in hs:
            if a != b: jobs.append(("headers %s, %s" % (a, b), '#include "%s"\n#include "%s"\nint unit_end;\n' % (a, b), ir.CLANG, "c++14"))
    with ThreadPoolExecutor(8) as ex:
        res = list(ex.map(lambda j: (j, compile(j[1], j[2], j[3], j[0])), jobs))
    for j, e in res:
        if e is None: ctx.ok(j[0] if len(ctx.samples) < 6 else None)
        else: ctx.bad(j[0], "%s, %s -std=%s: %s" % (j[0], os.path.basename(j[2]), j[3], e))
    ctx.cover["translation units compiled"] = len(jobs)
    # what a unit that includes the headers defines
    nd = 0
    for n, order in (("forward", hs), ("backward", hs[::-1])):
        with tempfile.TemporaryDirectory() as td:
            src = os.path.join(td, "all.cpp"); bc = os.path.join(td, "all.bc"); out = os.path.join(td, "all.json")
            open(src, "w").write("".join('#include "%s"\n' % h for h in order))
            r = ir.run([ir.CLANG, "-std=c++14", "-mpopcnt", "-w", "-g", "-O1", "-Xclang", "-disable-llvm-passes", "-fkeep-persistent-storage-variables", "-I" + os.path.join(ir.REPO, "include"), "-emit-llvm", "-c", src, "-o", bc])
            if r.returncode:
                ctx.bad("all headers, %s order" % n, [l for l in r.stderr.splitlines() if "error" in l][:1][0]); continue
            r = ir.run([ir.irx(), bc, out, "--passes=", "--no-inline"])
            if r.returncode: raise ir.Broken("irx: " + r.stderr[-500:])
            j = json.load(open(out))
        # linkage: 0 external, 1 available_externally, 2/3 linkonce, 4/5 weak, 7 internal, 8 private
        for f in j["functions"]:
            if f["decl"]: continue
            nd += 1
            if f["linkage"] == 0: ctx.bad("strong definition " + f["dem"], "%s is defined at header level without inline: two units including it do not link" % f["dem"])
            else: ctx.ok()
        for g in j["globals"]:
            if g["decl"] or g["name"].startswith((".str", "__PRETTY", "llvm.", "_ZStL8__ioinit", "__dso")): continue
            nd += 1
            if g["linkage"] == 0: ctx.bad("strong definition " + g["dem"], "variable %s is defined at header level: two units including it do not link" % g["dem"])
            elif g["linkage"] in (7, 8) and not g["const"] and "std::" not in g["dem"]: ctx.bad("per-unit variable " + g["dem"], "mutable variable %s exists once per unit" % g["dem"])
            else: ctx.ok()
    ctx.cover["definitions inspected"] = nd
