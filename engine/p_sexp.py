"""C01, C02, C05: writer and reader tables of the S-expression formats agree."""
import vg
from vg import *
from sexptab import Tables, within_domain, Mismatch
from report import Report
from prims import OPT, RES, SEXP

TOPS = {
    "C01": ("footprint", "kicad_parse_gen::footprint::Module", "fp_write", "fp_read", 15),
    "C02": ("board", "kicad_parse_gen::layout::Layout", "lay_write", "lay_read", 28),
    "C05": ("table", "kicad_parse_gen::fp_lib_table::FpLibTable", "flt_write", "flt_read", 2),
}
TECH = ("Per type, the writer's item table (which item is emitted from which field under which condition) and the reader's "
        "consumption table are extracted by a gated dataflow over the compiler's MIR and joined item by item; the joined value "
        "must be the written value, field by field, for every value of the type at once. No input is chosen and nothing is run.")

# operations whose meaning the join knows; a difference that hangs on any other
# one is not decided
KNOWN = {"var", "fld", "elem", "idx", "len", "str", "cat", "agg", "fmul", "fdiv", "fabs", "iabs", "num", "parse_radix", "unsigned",
         "pos", "first", "last", "conv", "mul", "f", "none", "sexp", "parse", "error", "trunc", "f2i", "raw", "str_to_lowercase", "str_to_uppercase", "substr",
         "zipped", "upd", "after", "path_parent", "path_join",
         "stuck", "remainder", "words", "chars", "substr", "chr", "front", "rest", "rev"}


# calls left uninterpreted whose contract a specification refers to
TRUSTED = {"apply"}


def known(t):
    return t.op in KNOWN or t.op == "call" and t.args[0] in TRUSTED


def unknown_ops(n):
    return sorted({t.op for t in terms_in(n, lambda t: not known(t))} - {"bot"})


def verdict(c, what):
    """None when the condition is always true"""
    c = consistent(c) if c != 1 else 1
    if c == 1:
        return None
    bad = unknown_ops(c)
    if bad:
        raise Undecided("%s depends on %s" % (what, ", ".join(bad)))
    vg.SHORT = {}
    return "%s only if %s" % (what, render(c)[:500])


def fields(P, ty):
    for t in P.types:
        if t["k"] == "adt" and t["name"] == ty:
            return t
    return None


def judge(T, P, short, row, emit):
    okc, v, a, env = row

    def one(key, what, c):
        try:
            r = verdict(c, what)
            emit(key, "ok" if r is None else "violation", r or "")
        except Undecided as e:
            emit(key, "undecided", str(e))

    def care(c):
        with within_domain(T):
            c = subst(c, env)
        # where the value is not accepted at all the acceptance obligation speaks
        return BDD.OR(BDD.NOT(okc), c)
    one(short + " accepted", "what is written is accepted", okc)
    ty = row_type(short, P)
    t = fields(P, ty)
    if t is None:
        one(short + " value", "the value read is the value written", care(same(v, a)))
        return
    if len(t["variants"]) == 1:
        fs = t["variants"][0]["fields"]
        for i, f in enumerate(fs):
            x = fld(v, 0, i, (ty, len(fs)))
            y = fld(a, 0, i, (ty, len(fs)))
            one("%s.%s" % (short, f[0]), "the field read is the field written", care(same(x, y)))
    else:
        n = len(t["variants"])
        for vi, var in enumerate(t["variants"]):
            c = is_variant(a, vi, n)
            one("%s::%s" % (short, var["name"]), "the value read is the value written", care(BDD.OR(BDD.NOT(c), same(v, a))))


def row_type(short, P):
    return "kicad_parse_gen::" + short


def find(P, name):
    for k, i in P.insts.items():
        if i["name"] == "probe::" + name and P.fn(k) is not None:
            return k
    raise Undecided("no entry point " + name)


def reachable(T, root):
    """types joined through their own rows, starting from root"""
    seen = []
    todo = [root]
    while todo:
        ty = todo.pop(0)
        if ty in seen:
            continue
        seen.append(ty)
        T.used = set()
        try:
            T.parse(ty, T.writer(ty))
        except (Undecided, RecursionError):
            pass
        todo += sorted(T.used)
    return seen


def check(prop, P):
    what, root, w, r, least = TOPS[prop]
    R = Report(prop, TECH)
    R.assumptions = [
        "values outside the format are out of scope: free-text layer names that equal a keyword or contain a dot, points whose kind does not fit their place, drill shapes other than oval, unparsed board items whose name the reader knows, negative stamps, NaN",
        "the display of an integer or float parses back to it; the dependency's token parser inverts its printer",
        "derived Clone and PartialEq are structural (equality of pads, layers and texts is C21)",
    ]
    T = Tables(P)
    ts = reachable(T, root)
    for ty in ts:
        short = ty.replace("kicad_parse_gen::", "")

        def go(emit, ty=ty, short=short):
            T.depth = 0
            judge(T, P, short, T.row(ty), emit)
        R.many(short + " row", go)
        for k in (T.wkey.get(ty), T.rkey.get(ty)):
            if k:
                R.functions.add(k)

    def top(emit):
        row = T.top(find(P, w), find(P, r))
        okc, v, a, env = row
        for key, c, text in (("text accepted", okc, "the printed text is accepted"), ("text value", BDD.OR(BDD.NOT(okc), same(v, a)), "the value parsed is the value printed")):
            try:
                x = verdict(c, text)
                emit("%s %s" % (what, key), "ok" if x is None else "violation", x or "")
            except Undecided as e:
                emit("%s %s" % (what, key), "undecided", str(e))
    R.many(what + " text", top)
    R.floor("types_joined", len(ts), least)
    for fl in T.flows.values():
        R.functions |= getattr(fl, "entered", set())
    if prop == "C05":
        uri(R, P, T)
    R.samples = ["%s: %s" % (k, s) for k, s, t in R.items[:12]]
    return R.finish()


def uri(R, P, T):
    def go():
        fl, g, st, v = T.flow(find(P, "flt_expand"), ["l"])
        l = K(mk("var", "l"))
        t = fields(P, "kicad_parse_gen::fp_lib_table::Lib")
        fs = t["variants"][0]["fields"]
        i = [f[0] for f in fs].index("uri")
        want = fld(l, 0, i, (t["name"], len(fs)))
        calls = terms_in(v, lambda x: x.op == "call" and "shellexpand" in str(x.args[0]))
        if not calls:
            used = terms_in(v, lambda x: x.op == "fld")
            if leafof(want) not in set(used):
                return "the expanded location does not come from the entry's own location"
            raise Undecided("no expansion call found")
        for c in calls:
            if not any(isinstance(a, Node) and a.n == want or a is leafof(want) for a in c.args[1:]):
                return "expansion starts from %s" % render(K(c))[:200]
        return None
    R.oblige("Lib.get_expanded_uri", go)
