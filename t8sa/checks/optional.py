"""P15: an argument that may be left out (NULL) is never dereferenced on a path on which it may be NULL."""
import re, os
from ..lib import varid, in_macro, cval, assigned
from ..paths import explore, by_decl, TooMany, is_null, guards, canon
from ..model import CASTS
from .. import extract as X

DEREF_EXTERNAL = {"memcpy": (0, 1), "memset": (0,), "memmove": (0, 1), "strlen": (0,), "strcmp": (0, 1), "strcpy": (0, 1), "strncpy": (0, 1),
                  "sc_array_push": (0,), "sc_array_index": (0,), "sc_array_resize": (0,), "sc_array_reset": (0,), "fprintf": (0,), "fclose": (0,), "fread": (3,), "fwrite": (3,)}
_docs = {}


def doc_params(path, line):
    """parameter name -> documentation text in the comment block that ends right above the given line"""
    if path not in _docs:
        try:
            _docs[path] = open(path, errors="replace").read().split("\n")
        except OSError:
            _docs[path] = []
    L = _docs[path]
    i = line - 2
    lim = 12
    while i >= 0 and lim and "*/" not in L[i]:
        if L[i].strip().endswith((";", "}")):
            return {}
        i -= 1; lim -= 1
    if i < 0 or "*/" not in L[i]:
        return {}
    e = i
    while i >= 0 and "/*" not in L[i]:
        i -= 1
    txt = " ".join(x.strip().lstrip("*").strip() for x in L[i:e + 1])
    out = {}
    for m in re.finditer(r"[\\@]param\s*(?:\[[^\]]*\])?\s*(\w+)(.*?)(?=[\\@](?:param|return|note|warning|see|pre|post|tparam)\b|\*/|$)", txt):
        out[m.group(1)] = m.group(2)
    return out


OPT = re.compile(r"\b(?:may|can|could|others it must|other process(?:es|ors) it must|otherwise) (?:also |possibly |even )?be \\?[ac]?\s*(?:NULL|nullptr)|\b(?:if|unless) (?:it is |it's |this is )?(?:not )?(?:NULL|nullptr)\b|\bor (?:NULL|nullptr)\b|^\W*(?:NULL|nullptr) or\b|optional", re.I)
NEG = re.compile(r"(must|may|can|shall|should)\s*not be \\?[ac]?\s*(NULL|nullptr)|non-?NULL|!= ?NULL", re.I)


def documented_optional(txt, name):
    if not re.search(r"NULL|nullptr", txt) or NEG.search(txt):
        return False
    for m in OPT.finditer(txt):
        # the sentence must not be about another argument
        sent = re.split(r"[.;]", txt[:m.start()])[-1]
        other = [w for w in re.findall(r"\\[ac]\s+(\w+)", sent) if w != name]
        if not other:
            return True
    return False


def asserted(n):
    return in_macro(n, "T8_ASSERT", "SC_ASSERT", "SC_CHECK_ABORT", "SC_CHECK_ABORTF")


def tested(f, d):
    """the function itself asks whether d is NULL (outside of assertions)"""
    for n in f.walk():
        if asserted(n):
            continue
        c = None
        if n.k == "BinaryOperator" and n.op in ("==", "!="):
            if is_null(n.c[1]) and varid(n.c[0]) == d or is_null(n.c[0]) and varid(n.c[1]) == d:
                return n
        elif n.k == "IfStmt" and n.c[2] is not None and varid(n.c[2]) == d:
            return n
        elif n.k == "UnaryOperator" and n.op == "!" and varid(n.c[0]) == d:
            return n
        elif n.k == "ConditionalOperator" and varid(n.c[0]) == d:
            return n
        elif n.k == "ImplicitCastExpr" and n.get("ck") == "PointerToBoolean" and varid(n) == d:
            return n
    return None


def required(c):
    """the assertion around c demands on its own that the pointer is not NULL"""
    n = c
    while n is not None and asserted(n):
        if n.k == "BinaryOperator" and n.op in ("||", "=="):
            return False
        if n.k == "ConditionalOperator":
            return True
        n = n.parent
    return True


def deref(n, d):
    if n.k == "ArraySubscriptExpr" and varid(n.c[0]) == d:
        return True
    if n.k == "UnaryOperator" and n.op == "*" and varid(n.c[0]) == d:
        return True
    if n.k == "MemberExpr" and n.get("arrow") and n.kids and varid(n.kids[0]) == d:
        return True
    return False


def conj(n):
    n = n.strip()
    if n.k == "BinaryOperator" and n.op == "&&":
        return conj(n.c[0]) + conj(n.c[1])
    return [n]


def implies(f, d):
    """local truth values that are only true if d is not NULL"""
    asg = {}
    for n in f.walk():
        if n.k == "BinaryOperator" and n.op == "=" and varid(n.c[0]) is not None:
            asg.setdefault(varid(n.c[0]), []).append(n.c[1])
        elif n.k == "DeclStmt":
            for v in n.d["decls"]:
                if v["id"] in f.varinit:
                    asg.setdefault(v["id"], []).append(f.varinit[v["id"]])
    out = set()
    for v, l in asg.items():
        def good(x):
            for c in conj(x):
                if c.k == "BinaryOperator" and c.op == "!=" and (varid(c.c[0]) == d and is_null(c.c[1]) or varid(c.c[1]) == d and is_null(c.c[0])):
                    return True
                if varid(c) in (v, d):
                    return True
            return False
        if all(good(x) for x in l) and any(not any(varid(c) == v for c in conj(x)) for x in l):
            out.add(v)
    return out


class Need:
    """parameters that a function dereferences without asking"""
    def __init__(self, P):
        self.P = P; self.memo = {}; self.busy = set()

    def param(self, f, i):
        k = (f.key, f.file, f.l, i)
        if k in self.memo:
            return self.memo[k]
        if k in self.busy:
            return None
        self.busy.add(k)
        r = self.find(f, f.params[i]["id"], True)
        self.busy.discard(k)
        self.memo[k] = r
        return r

    def callarg(self, n, d):
        """node passes d where it is dereferenced: description or None"""
        if n.cn in DEREF_EXTERNAL:
            for i in DEREF_EXTERNAL[n.cn]:
                if i < len(n.args) and n.args[i] is not None and varid(n.args[i]) == d:
                    if n.cn in ("memcpy", "memset", "memmove"):
                        return None          # with length 0 a null pointer is harmless in practice
                    return "passed to %s" % n.cn
            return None
        fs = [f for f in self.P.resolve(n) if f.body is not None and not f.tmpl]
        if not fs or n.get("virt"):
            return None
        for i, a in enumerate(n.args):
            if a is not None and varid(a) == d:
                for f in fs:
                    if i < len(f.params):
                        w = self.param(f, i)
                        if w and w.startswith("required") and f.d.get("internal") and any(x.k == "IfStmt" for x in n.ancestors()):
                            continue         # part of this function under a name of its own: its assertion counts as one in this branch
                        if w:
                            return "passed to %s, where it is %s" % (f.n, w)
        return None

    def find(self, f, d, strict=False):
        """a use of d that is not protected by a test, on some path from the entry on which nothing but d decides"""
        if f.cfg is None or f.tmpl:
            return None
        hit = []
        for n in f.walk():
            if asserted(n) and n.k == "BinaryOperator" and n.op == "==" and all(x.strip().k == "BinaryOperator" and x.strip().op == "==" and any(is_null(y) for y in x.strip().c) for x in n.c) \
                    and any(varid(y) == d for x in n.c for y in x.strip().c):
                return None          # given or left out together with another argument

        def step(n, s):
            # s: the variables that hold the argument, which may be NULL
            if not s:
                return s
            if isinstance(n, tuple):
                return s | {n[1]} if varid(n[2]) in s else s - {n[1]}
            if n.k == "BinaryOperator" and n.op == "=":
                v = varid(n.c[0])
                if v is not None and n.c[0].strip().k == "DeclRefExpr":
                    return s | {v} if varid(n.c[1]) in s else s - {v}
            if n.k == "UnaryOperator" and n.op == "&" and varid(n.c[0]) in s:
                return s - {varid(n.c[0])}
            if n.k in ("UnaryOperator", "CompoundAssignOperator") and n.op in ("++", "--", "+=", "-=") and varid(n.c[0]) in s:
                return s - {varid(n.c[0])}
            for x in s:
                if deref(n, x):
                    if n.parent is not None and n.parent.k == "UnaryExprOrTypeTraitExpr":
                        return s
                    if n.parent is not None and n.parent.k == "UnaryOperator" and n.parent.op == "&" and n.k == "ArraySubscriptExpr":
                        return s
                    hit.append((n, "dereferenced in line %d of %s" % (n.l, f.n)))
                    return None
                if n.is_call:
                    w = self.callarg(n, x)
                    if w:
                        hit.append((n, w))
                        return None
            return s

        def edge(c, v, s):
            if strict and s and asserted(c) and varid(c) in s and required(c):
                hit.append((c, "required in line %d of %s" % (c.l, f.n)))
                return None
            if s and v and not strict and c.is_call and asserted(c) and any(a is not None and varid(a) == d for a in c.args):
                return NONE          # an assertion about the object
            if s and varid(c) in s:
                return NONE if v else s
            if s and v and varid(c) in implied:
                return NONE
            return s
        NONE = frozenset()
        implied = implies(f, d)
        als = {d}
        for _ in range(3):
            for n in f.walk():
                if n.k == "BinaryOperator" and n.op == "=" and varid(n.c[1]) in als and n.c[0].strip().k == "DeclRefExpr" and varid(n.c[0]) is not None:
                    als.add(varid(n.c[0]))
            for v, init in f.varinit.items():
                if init is not None and varid(init) in als:
                    als.add(v)
        rel = [n for n in f.walk() if n.k == "DeclRefExpr" and n.get("d") in als]
        gs = guards(rel)
        try:
            explore(f, frozenset({d}), by_decl(f, step), edge, only=lambda k: k in gs, limit=20000)
        except TooMany:
            return None
        if hit:
            self.last = hit[0][0]
            return hit[0][1]
        return None


# members that exist only if a feature was asked for, and the calls that ask for it
OPTIONAL_MEMBERS = {("t8_cmesh", "profile"), ("t8_forest", "profile"), ("t8_cmesh", "geometry_handler"),
                    ("t8_geometry_analytic", "load_tree_data"), ("t8_geometry_analytic", "tree_compatible"), ("t8_geometry_analytic", "tree_negative_volume")}
ENABLE = {"t8_forest_set_profiling": "profile", "t8_cmesh_set_profiling": "profile"}


def member_paths(f, src, watch=None):
    """(uses of the member src without a test, uses under a test, True if the calls in watch are only reached after a test)"""
    hits = []; used = []; missed = []
    alias = {v for v, init in f.varinit.items() if init is not None and init.strip().src() == src}

    def same(x):
        x = x.strip()
        return x.src() == src or x.k == "DeclRefExpr" and x.get("d") in alias

    def uses(n):
        if n.k == "MemberExpr" and n.get("arrow") and n.kids and same(n.kids[0]):
            return True
        if n.k == "UnaryOperator" and n.op == "*" and same(n.c[0]):
            return True
        return n.k == "CallExpr" and n.cn is None and bool(n.kids) and same(n.kids[0])

    def step(n, s):
        if isinstance(n, tuple):
            return s
        if n.k == "BinaryOperator" and n.op == "=" and n.c[0].strip().src() == src:
            return "?" if is_null(n.c[1]) else "set"
        if n.is_call and n.cn in ENABLE and len(n.args) == 2 and cval(n.args[1]) != 0 and src in (n.args[0].src() + "->" + ENABLE[n.cn], n.args[0].src() + "." + ENABLE[n.cn]):
            return "set"
        if watch is not None and n.i in watch:
            if s == "?":
                missed.append(n)
        if uses(n):
            if s == "?":
                hits.append(n)
                return None
            used.append(n)
        return s

    def edge(c, v, s):
        if s == "?" and v and same(c):
            return "set"
        return s
    gs = guards([n for n in f.walk() if n.k == "MemberExpr" and n.src() == src or watch is not None and n.i in watch])
    gs |= {canon(n)[0] for n in f.walk() if n.k == "DeclRefExpr" and n.get("d") in alias}
    explore(f, "?", by_decl(f, step), edge, only=lambda k: k in gs, limit=20000)
    return hits, used, not missed


def callers_test(P, callers, f, m, depth=0):
    """f is only called where the optional member m of its argument is known to be there"""
    b = m.kids[0].strip() if m.kids else None
    if b is None or depth > 2:
        return False
    if b.k == "DeclRefExpr" and b.get("dk") == "parm" and f.d.get("internal"):
        ix = next((i for i, p in enumerate(f.params) if p["id"] == b.get("d")), None)
        if assigned(f, b.get("d")):
            return False
    elif b.k == "CXXThisExpr":
        ix = "this"
    else:
        return False
    cs = callers.get(f.key, ())
    if not cs or ix is None:
        return False
    for c in cs:
        h = c.fn
        if h.cfg is None or h.tmpl or h is f:
            return False
        if ix == "this":
            if h.cls != f.cls or "this" not in c.c[0].src():
                return False
            src = m.src()
        else:
            if ix >= len(c.args):
                return False
            src = c.args[ix].strip().src() + "->" + m.get("n")
        try:
            ok = member_paths(h, src, {c.i})[2]
        except TooMany:
            return False
        if not ok:
            m2 = next((x for x in h.walk() if x.k == "MemberExpr" and x.src() == src), None)
            if m2 is None or not callers_test(P, callers, h, m2, depth + 1):
                return False
    return True


def run_members(P, rep):
    callers = {}
    for f in P.all:
        if f.body is not None and not f.tmpl:
            for c in f.calls():
                for g in P.resolve(c):
                    callers.setdefault(g.key, []).append(c)
    for f in P.all:
        if f.tmpl or f.body is None or f.cfg is None:
            continue
        ms = [n for n in f.walk() if n.k == "MemberExpr" and (n.get("rec"), n.get("n")) in OPTIONAL_MEMBERS]
        for src in sorted({m.src() for m in ms}):
            try:
                hits, used, _ = member_paths(f, src)
            except TooMany:
                rep.note("too many paths: %s" % f.n)
                continue
            if hits and callers_test(P, callers, f, next(m for m in ms if m.src() == src)):
                rep.ok("optional member used under a test", "%s: %s (tested by every caller)" % (f.n, src))
            elif hits:
                rep.bad("member:%s:%s" % (f.n, src), "%s: '%s' may be NULL but is dereferenced in line %d without a test" % (f.n, src, hits[0].l), hits[0].where)
            elif used:
                rep.ok("optional member used under a test", "%s: %s" % (f.n, src))
    rep.need("optional member used under a test", 8)


MAY_BE_NULL = {"fopen", "freopen", "popen", "getenv", "strchr", "strrchr", "strstr"}


def returns_null(P):
    out = set(MAY_BE_NULL)
    for f in P.all:
        if f.tmpl or f.body is None or f.ret is None or f.ret.k != "ptr":
            continue
        for n in f.walk():
            if n.k == "ReturnStmt" and n.kids and n.kids[0] is not None:
                v = n.kids[0].strip()
                if is_null(v) or v.k == "ConditionalOperator" and any(is_null(x) for x in v.c[1:]):
                    out.add(f.n)
    return out


def run_results(P, rep):
    """the result of a function that may return NULL is not dereferenced before it was tested, if the function tests it at all or the result comes from the outside (files)"""
    N = Need(P)
    RN = returns_null(P)

    def maybe(x):
        x = x.strip()
        return x.is_call and x.cn in RN

    for f in P.all:
        if f.tmpl or f.body is None or f.cfg is None:
            continue
        srcs = {}
        for n in f.walk():
            if n.k == "BinaryOperator" and n.op == "=" and n.c[0].strip().k == "DeclRefExpr" and maybe(n.c[1]):
                srcs.setdefault(varid(n.c[0]), []).append(n.c[1].strip())
        for v, init in f.varinit.items():
            if init is not None and maybe(init):
                srcs.setdefault(v, []).append(init.strip())
        for d, calls in srcs.items():
            outside = [c for c in calls if c.cn in MAY_BE_NULL]
            if not outside and not tested(f, d):
                continue
            hits = []

            def step(n, s):
                if isinstance(n, tuple):
                    if n[1] == d:
                        return "?" if n[2] is not None and maybe(n[2]) else "set"
                    return s
                if n.k == "BinaryOperator" and n.op == "=" and varid(n.c[0]) == d:
                    return "?" if maybe(n.c[1]) else "set"
                if n.k == "UnaryOperator" and n.op == "&" and varid(n.c[0]) == d:
                    return "set"
                if s == "?":
                    if deref(n, d):
                        hits.append((n, "dereferenced"))
                        return None
                    if n.is_call:
                        w = N.callarg(n, d)
                        if w is None and n.cn in ("fprintf", "fscanf", "fgets", "fgetc", "getline", "fclose", "fread", "fwrite", "feof", "ferror", "fflush", "rewind", "fseek", "ftell"):
                            if any(a is not None and varid(a) == d for a in n.args):
                                w = "passed to %s" % n.cn
                        if w:
                            hits.append((n, w))
                            return None
                return s

            def edge(c, v, s):
                if s == "?" and varid(c) == d:
                    return "set" if v else "?"
                if s == "?" and v and varid(c) in implied:
                    return "set"
                return s
            implied = implies(f, d)
            gs = guards([n for n in f.walk() if n.k == "DeclRefExpr" and n.get("d") == d])
            try:
                explore(f, "set", by_decl(f, step), edge, only=lambda k: k in gs, limit=20000)
            except TooMany:
                rep.note("too many paths: %s" % f.n)
                continue
            name = next((x.get("n") for x in f.walk() if x.k == "DeclRefExpr" and x.get("d") == d), "?")
            if hits:
                rep.bad("result:%s:%s" % (f.n, name), "%s: '%s' may be NULL (result of %s) but is %s without a test" % (f.n, name, calls[0].cn, hits[0][1]), hits[0][0].where)
            else:
                rep.ok("result that may be NULL used under a test", "%s: %s" % (f.n, name))
    rep.need("result that may be NULL used under a test", 5)


def is_optional(t):
    return t is not None and bool(re.match(r"(const )?(std::)?optional<", t.cs or t.s))


def obj(n):
    if n.k != "CXXMemberCallExpr" or not n.c or n.c[0] is None:
        return None
    m = n.c[0].strip()
    return m.kids[0] if m.k == "MemberExpr" and m.kids else None


LOOKUP = {"find", "find_if", "lower_bound", "upper_bound"}


def run_values(P, rep):
    """std::optional values and the results of container lookups"""
    for f in P.all:
        if f.tmpl or f.body is None or f.cfg is None:
            continue

        def lookup(x):
            x = x.strip()
            while x.k in ("CXXConstructExpr", "ExprWithCleanups", "MaterializeTemporaryExpr") and len(x.kids) == 1:
                x = x.kids[0].strip()
            return x if x.is_call and x.cn == "find" else None
        its = {v for v, init in f.varinit.items() if init is not None and lookup(init)}
        opts = {n.get("d") for n in f.walk() if n.k == "DeclRefExpr" and n.get("dk") in ("local", "parm") and is_optional(n.t)}
        # values this function fills itself, step by step, follow the logic of the search they are part of
        opts -= {varid(obj(n)) for n in f.walk() if n.k == "CXXMemberCallExpr" and n.cn == "emplace" and obj(n) is not None}
        direct = [n for n in f.walk() if n.k == "CXXOperatorCallExpr" and n.op in ("*", "->") and n.args and lookup(n.args[0])]
        for n in direct:
            rep.bad("lookup:%s:%s" % (f.n, lookup(n.args[0]).src()[:40]), "%s uses the result of a lookup without testing that something was found" % f.n, n.where)
        if not its and not opts:
            continue
        bad = {}; used = set()

        def target(n):
            if n.k == "CXXOperatorCallExpr" and n.op in ("*", "->") and len(n.args) == 1:
                return varid(n.args[0])
            if n.k == "CXXMemberCallExpr" and n.cn in ("value", "operator->", "operator*") and obj(n) is not None:
                return varid(obj(n))
            return None

        def step(n, s):
            if isinstance(n, tuple):
                return s - {n[1]}
            d = target(n)
            if d in its or d in opts:
                used.add(n)
                if d not in s:
                    bad.setdefault(d, n)
                return s
            if n.k in ("BinaryOperator", "CXXOperatorCallExpr") and n.op == "=":
                l = n.c[0] if n.k == "BinaryOperator" else n.args[0]
                if varid(l) in its | opts and l.strip().k == "DeclRefExpr":
                    r = n.c[1] if n.k == "BinaryOperator" else n.args[1]
                    if is_optional(r.strip().t) or lookup(r):
                        return s - {varid(l)}
                    return s | {varid(l)}
            return s

        def edge(c, v, s):
            x = c.strip()
            if x.k == "CXXMemberCallExpr" and x.cn in ("operator bool", "has_value") and obj(x) is not None:
                d = varid(obj(x))
                return s | {d} if v and d in opts else s
            if x.k == "CXXOperatorCallExpr" and x.op in ("==", "!=") and len(x.args) == 2:
                e = [a for a in x.args if any(y.is_call and y.cn in ("end", "cend") for y in a.walk())]
                o = [a for a in x.args if varid(a) in its]
                if e and o:
                    return s | {varid(o[0])} if v == (x.op == "!=") else s
            return s
        try:
            explore(f, frozenset(), by_decl(f, step), edge, only=lambda k: False, limit=20000)
        except TooMany:
            rep.note("too many paths: %s" % f.n)
            continue
        for d, n in bad.items():
            name = next((x.get("n") for x in f.walk() if x.k == "DeclRefExpr" and x.get("d") == d), "?")
            rep.bad("value:%s:%s" % (f.n, name), "%s uses the value of '%s' without testing that there is one" % (f.n, name), n.where)
        if used and not bad:
            rep.ok("lookup or optional value used under a test", f.n)
    rep.need("lookup or optional value used under a test", 2)


def run_hash(P, rep):
    """the entry a hash lookup delivers is there only if the lookup says so"""
    for f in P.all:
        if f.tmpl or f.body is None or f.cfg is None:
            continue
        looks = {}
        for n in f.calls():
            if n.cn == "sc_hash_lookup" and len(n.args) > 2:
                x = n.args[2].strip()
                while x.k in ("ParenExpr",):
                    x = x.kids[0].strip()
                if x.k == "UnaryOperator" and x.op == "&" and varid(x.kids[0]) is not None:
                    looks[n.i] = varid(x.kids[0])
        if not looks:
            continue
        # only where the outcome decides something: otherwise the caller guarantees that the entry is there
        res = {}
        tested = set()
        for i, d in looks.items():
            n = f.nodes[i]
            p = n
            while p.parent is not None and (p.parent.k in ("ParenExpr", "ImplicitCastExpr", "CStyleCastExpr") or p.parent.k == "UnaryOperator" and p.parent.op == "!"):
                p = p.parent
            q = p.parent
            v = None
            if q is not None and q.k == "BinaryOperator" and q.op == "=" and q.c[1] is p:
                v = varid(q.c[0])
            elif q is not None and q.k == "DeclStmt":
                v = next((e["id"] for e in q.d["decls"] if f.varinit.get(e["id"]) is p), None)
            elif q is not None and (q.k in ("IfStmt", "ConditionalOperator", "WhileStmt") or q.k == "BinaryOperator" and q.op in ("&&", "||")):
                tested.add(i)
            if v is not None:
                res[v] = d
                if any(x.k == "DeclRefExpr" and x.get("d") == v and not in_macro(x, "T8_ASSERT", "SC_CHECK_ABORT") and
                       any(a.k in ("IfStmt", "ConditionalOperator", "WhileStmt") or a.k == "BinaryOperator" and a.op in ("&&", "||") for a in x.ancestors()) for x in f.walk()):
                    tested.add(i)
        if set(looks) - tested:
            continue
        ds = set(looks.values())
        bad = {}; used = []

        def step(n, s):
            if isinstance(n, tuple):
                return s
            if n.i in looks:
                return s - {looks[n.i]}
            if n.k == "UnaryOperator" and n.op == "*" and varid(n.kids[0]) in ds or n.k == "ArraySubscriptExpr" and varid(n.c[0]) in ds:
                d = varid(n.kids[0])
                used.append(n)
                if d not in s and not in_macro(n, "T8_ASSERT"):
                    bad.setdefault(d, n)
            if n.k == "BinaryOperator" and n.op == "=" and varid(n.c[0]) in ds:
                return s | {varid(n.c[0])}
            return s

        def edge(c, v, s):
            x = c.strip()
            if x.i in looks:
                return s | {looks[x.i]} if v else s
            d = res.get(varid(x))
            if d is not None and v:
                return s | {d}
            if x.k == "BinaryOperator" and x.op in ("==", "!="):
                d = res.get(varid(x.c[0]))
                if d is not None and v == False:
                    return s | {d}
            return s
        try:
            explore(f, frozenset(), by_decl(f, step), edge, only=lambda k: False, limit=20000)
        except TooMany:
            continue
        for d, n in bad.items():
            rep.bad("hash:%s:%s" % (f.n, f.vardecls[d][0]["n"]), "%s uses the entry '%s' of a hash lookup on a path on which nothing was found" % (f.n, f.vardecls[d][0]["n"]), n.where)
        if used and not bad:
            rep.ok("entry of a hash lookup used under a test", f.n)


def run_P15(P, rep):
    run_hash(P, rep)
    run_values(P, rep)
    run_members(P, rep)
    run_results(P, rep)
    N = Need(P)
    protos = {}
    for p in P.protos:
        protos.setdefault(p["key"], []).append(p)
    nullcalls = {}
    for f in P.all:
        if f.tmpl or f.body is None:
            continue
        for n in f.calls():
            if n.k not in ("CallExpr", "CXXMemberCallExpr") or n.get("virt"):
                continue
            if any(a is not None and a.t is not None and a.t.k != "ptr" and cval(a) == 0 for a in n.args):
                continue          # a flag or count of the same call may say that the argument is not used
            for i, a in enumerate(n.args):
                if a is not None and a.t is not None and a.t.k == "ptr" and is_null(a):
                    for g in P.resolve(n):
                        if g.body is not None and i < len(g.params):
                            nullcalls.setdefault((id(g), i), []).append(n)
    for f in P.all:
        if f.tmpl or f.body is None or f.cfg is None:
            continue
        docs = None
        for i, p in enumerate(f.params):
            t = f.ptype(i)
            if t is None or t.k != "ptr":
                continue
            if docs is None:
                docs = doc_params(f.file, f.l)
                for q in protos.get(f.key, ()):
                    d2 = doc_params(os.path.join(X.REPO, q["_file"]), q["l"])
                    for a, b in d2.items():
                        docs.setdefault(a, b)
            why = None
            if p["n"] in docs and documented_optional(docs[p["n"]], p["n"]):
                why = "documented as optional"
            elif tested(f, p["id"]):
                why = "tested for NULL by the function itself"
            elif (id(f), i) in nullcalls:
                why = "NULL in the call at %s" % nullcalls[(id(f), i)][0].where
            if why is None:
                continue
            rep.ok("optional argument: " + why.split(" at ")[0].split(" in the call")[0], "%s(%s)" % (f.n, p["n"]))
            N.last = None
            w = N.find(f, p["id"])
            if w:
                rep.bad("null:%s:%s" % (f.n, p["n"]), "%s: argument '%s' may be NULL (%s) but is %s without a test" % (f.n, p["n"], why, w), N.last.where if N.last is not None else f.where)
    rep.need("optional argument: tested for NULL by the function itself", 5)
