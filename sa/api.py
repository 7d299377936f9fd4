"""The public operations of the filter (tu/api.cpp), with the role of each pointer argument."""
import ir, pts

TU = "api.cpp"
ROLES = {
    "q_lookupKey": {0: "filter", 1: "key"}, "q_lookupRange": {0: "filter", 1: "key", 3: "key"},
    "q_approxCount": {0: "filter", 1: "key", 2: "key"}, "q_approxCountIter": {0: "filter", 1: "iter", 2: "iter"},
    "q_moveToKeyGreaterThan": {0: "filter", 1: "key", 3: "out"}, "q_moveToKeyLessThan": {0: "filter", 1: "key", 3: "out"},
    "q_moveToFirst": {0: "filter", 1: "out"}, "q_moveToLast": {0: "filter", 1: "out"},
    "q_serializedSize": {0: "filter"}, "q_getMemoryUsage": {0: "filter"}, "q_getHeight": {0: "filter"},
    "q_getSparseStartLevel": {0: "filter"}, "q_serialize": {0: "filter"},
    "i_isValid": {0: "iter"}, "i_getFpFlag": {0: "iter"}, "i_compare": {0: "iter", 1: "key"}, "i_getKey": {0: "iter", 1: "out"},
    "i_getSuffix": {0: "iter", 1: "out"}, "i_getKeyWithSuffix": {0: "iter", 1: "out", 2: "out"},
    "i_increment": {0: "iter"}, "i_decrement": {0: "iter"}, "i_clear": {0: "iter"},
    "c_create": {0: "key"}, "c_create_default": {0: "key"}, "c_create_suffix": {0: "key"}, "c_create_inplace": {0: "filter", 1: "key"},
    "c_deserialize": {0: "key"}, "c_destroy": {0: "filter"}, "c_life_built": {0: "key"}, "c_life_loaded": {0: "key"}, "c_save": {0: "filter"},
}
RAW = {"r_moveToKeyGreaterThan": {0: "filter", 1: "key", 3: "out"}, "r_moveToKeyLessThan": {0: "filter", 1: "key", 3: "out"}, "r_moveToFirst": {0: "filter", 1: "out"}, "r_moveToLast": {0: "filter", 1: "out"}}
MUTATES_ITER = {"i_increment", "i_decrement", "i_clear"}

_m = {}
MARKS = False          # whether numbers of locals start out marked as unset


def module(passes=ir.P_SSA, defines=(), drop_asserts=False):
    k = (passes, tuple(defines), drop_asserts, MARKS)
    if k not in _m:
        _m[k] = ir.load(TU, ["^q_", "^i_", "^c_", "^r_"], passes=passes, defines=defines, drop_asserts=drop_asserts, marks=MARKS)
    return _m[k]


def name(f): return f.dem.split("(")[0]


def analysed(names, **kw):
    """[(operation, function, points-to result)]"""
    m = module(**kw); by = {name(f): f for f in m.funcs.values()}
    out = []
    for n in names:
        if n not in by: raise ir.Broken("operation %s is missing from the analysed module" % n)
        out.append((n, by[n], pts.PTS(by[n], ROLES[n])))
    return out


QUERIES = [n for n in ROLES if n.startswith("q_")]
ITEROPS = [n for n in ROLES if n.startswith("i_")]
def human(n):
    k, _, r = n.partition("_")
    return {"q": "SuRF::", "r": "SuRF::", "i": "SuRF::Iter::", "c": "life cycle "}[k] + r
