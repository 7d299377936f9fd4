"""Type-level witnesses of the interface: programs using a filter or an iterator that is handed out read-only must compile, and
programs changing one through such access must not.  The compiler decides each; a violation names the witness."""
import ir, os
from concurrent.futures import ThreadPoolExecutor

HEAD = """#include <string>
#include <vector>
#include <type_traits>
#include "surf.hpp"
using namespace surf;
template <class T> T make();
#define RETURNS64(e) static_assert(std::is_unsigned<decltype(e)>::value && sizeof(decltype(e)) == 8, "64 bits")
"""
F, I, K, S = "const SuRF& f", "const SuRF::Iter& it", "const std::string& k", "std::string s"
MUST = [
    ("lookupKey on a const filter", "bool w(%s, %s) { return f.lookupKey(k); }" % (F, K)),
    ("lookupKey of a temporary key", "bool w(%s, const char* p, size_t n) { return f.lookupKey(std::string(p, n)); }" % F),
    ("lookupRange on a const filter", "bool w(%s, %s) { return f.lookupRange(k, true, k, false); }" % (F, K)),
    ("moveToKeyGreaterThan on a const filter", "SuRF::Iter w(%s, %s) { return f.moveToKeyGreaterThan(k, true); }" % (F, K)),
    ("moveToKeyLessThan on a const filter", "SuRF::Iter w(%s, %s) { return f.moveToKeyLessThan(k, true); }" % (F, K)),
    ("moveToFirst on a const filter", "SuRF::Iter w(%s) { return f.moveToFirst(); }" % F),
    ("moveToLast on a const filter", "SuRF::Iter w(%s) { return f.moveToLast(); }" % F),
    ("approxCount on a const filter", "uint64_t w(%s, %s) { return f.approxCount(k, k); }" % (F, K)),
    ("approxCount between const iterators", "uint64_t w(%s, %s) { return f.approxCount(&it, &it); }" % (F, I)),
    ("sizes of a const filter", "uint64_t w(%s) { return f.serializedSize() + f.getMemoryUsage() + f.getHeight() + f.getSparseStartLevel(); }" % F),
    ("saving a const filter", "char* w(%s) { return f.serialize(); }" % F),
    ("a const iterator is read", "bool w(%s, %s) { unsigned n; word_t x; std::string a = it.getKey(), b = it.getKeyWithSuffix(&n); return it.isValid() && it.getFpFlag() && it.compare(k) == it.getSuffix(&x) && a == b; }" % (I, K)),
    ("building from a const key list", "SuRF* w(const std::vector<std::string>& keys) { return new SuRF(keys); }"),
    ("building with suffixes from a const key list", "SuRF* w(const std::vector<std::string>& keys) { return new SuRF(keys, kMixed, 3, 5); }"),
    ("building with all settings from a const key list", "SuRF* w(const std::vector<std::string>& keys) { return new SuRF(keys, true, 16, kReal, 0, 8); }"),
    ("create on an existing filter", "void w(SuRF& f, const std::vector<std::string>& keys) { f.create(keys, true, 16, kHash, 8, 0); }"),
    ("loading", "SuRF* w(char* p) { return SuRF::deSerialize(p); }"),
    ("iterators are copied and assigned", "static_assert(std::is_copy_constructible<SuRF::Iter>::value && std::is_copy_assignable<SuRF::Iter>::value && std::is_default_constructible<SuRF::Iter>::value, \"copies\");"),
    ("a copied iterator moves on its own", "bool w(%s) { SuRF::Iter a = it; return a++ && a--; }" % I),
    ("iterators are kept in containers", "void w(%s) { std::vector<SuRF::Iter> v; v.push_back(f.moveToFirst()); v.insert(v.begin(), v[0]); }" % F),
    ("iterators outlive the call that made them", "static_assert(std::is_same<decltype(make<const SuRF&>().moveToFirst()), SuRF::Iter>::value && std::is_same<decltype(make<const SuRF&>().moveToLast()), SuRF::Iter>::value && std::is_same<decltype(make<const SuRF&>().moveToKeyGreaterThan(make<const std::string&>(), true)), SuRF::Iter>::value && std::is_same<decltype(make<const SuRF&>().moveToKeyLessThan(make<const std::string&>(), true)), SuRF::Iter>::value, \"by value\");"),
    ("keys are returned by value", "static_assert(std::is_same<decltype(make<const SuRF::Iter&>().getKey()), std::string>::value, \"by value\"); std::string w(%s) { unsigned n; return it.getKeyWithSuffix(&n); }" % I),
    ("counts and sizes are 64 bits wide", "const SuRF& f = make<const SuRF&>(); RETURNS64(f.approxCount(make<const std::string&>(), make<const std::string&>())); RETURNS64(f.approxCount(make<const SuRF::Iter*>(), make<const SuRF::Iter*>())); RETURNS64(f.serializedSize()); RETURNS64(f.getMemoryUsage());"),
    ("comparison tells three outcomes apart", "static_assert(std::is_signed<decltype(make<const SuRF::Iter&>().compare(make<const std::string&>()))>::value, \"signed\");"),
    ("key bytes and words are unsigned", "static_assert(std::is_unsigned<label_t>::value && sizeof(label_t) == 1 && std::is_unsigned<word_t>::value && sizeof(word_t) == 8 && std::is_unsigned<position_t>::value && std::is_unsigned<level_t>::value, \"types\");"),
]
MUST_NOT = [
    ("building on a const filter", "void w(%s, const std::vector<std::string>& k) { f.create(k, true, 16, kNone, 0, 0); }" % F),
    ("destroying a const filter", "void w(%s) { f.destroy(); }" % F),
    ("advancing a const iterator", "bool w(%s) { return it++; }" % I),
    ("stepping back a const iterator", "bool w(%s) { return it--; }" % I),
    ("clearing a const iterator", "void w(%s) { it.clear(); }" % I),
]
COMPILERS = [("g++", "c++11"), ("g++", "c++17"), (ir.CLANG, "c++11"), (ir.CLANG, "c++14")]


def errors(text, cxx, std):
    r = ir.subprocess.run([cxx, "-fsyntax-only", "-x", "c++", "-std=" + std, "-mpopcnt", "-w", "-I" + os.path.join(ir.REPO, "include"), "-"],
                          input=text, stdout=ir.subprocess.PIPE, stderr=ir.subprocess.PIPE, text=True)
    return [l.replace(ir.REPO + "/", "") for l in r.stderr.splitlines() if "error" in l] or ["?"] if r.returncode else None


def run(ctx):
    ctx.level = "proof"
    ctx.rule("each program using read-only access compiles; each program changing something through it is rejected")
    ctx.trusted.append("g++ 13 and clang 18 front ends")
    jobs = [(n, HEAD + t + "\n", c, True) for n, t in MUST for c in COMPILERS] + [(n, HEAD + t + "\n", c, False) for n, t in MUST_NOT for c in COMPILERS]
    base = errors(HEAD, *COMPILERS[0])
    ctx.need(0 if base else 1, 1, "surf.hpp compiles")
    with ThreadPoolExecutor(8) as ex: res = list(ex.map(lambda j: errors(j[1], *j[2]), jobs))
    for (n, text, (cxx, std), want), e in zip(jobs, res):
        if (e is None) == want: ctx.ok("%s: %s" % (n, "accepted" if want else "rejected"))
        else: ctx.bad("witness: " + n, "%s is %s (%s -std=%s)%s" % (n, "rejected" if want else "accepted", os.path.basename(cxx), std, ": " + e[0] if e else ""))
    ctx.cover["programs accepted as they must be"] = len(MUST); ctx.cover["programs rejected as they must be"] = len(MUST_NOT)
    ctx.cover["compilations"] = len(jobs)
