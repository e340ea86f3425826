"""P31: orderings are consistent, and sorted or hashed containers find what was put into them."""
import itertools, re
from ..lib import *
from ..model import CASTS, LOOPS
from ..poly import inner, poly, const
from .batch import counter

SORT = {"sc_array_sort": 1, "qsort": 3, "sort": 2, "stable_sort": 2}
SEARCH = {"sc_array_bsearch": 2, "bsearch": 4}
# the order the users of a sorted container rely on, by the type of its entries
ORDER = {"t8_stash_class": [["id"]], "t8_stash_joinface": [["id1"]], "t8_stash_attribute": [["id", "package_id", "key"]],
         "t8_part_ghost_id_and_num_atts": [["global_id"], ["part_ghost_id"]], "pair<int, int>": [["first", "second"]], "pair<long, int>": [["second"]]}


class Undecided(Exception):
    pass


class NewTerm(Exception):
    pass


class Mismatch(Exception):
    pass


class Ev:
    """evaluates a two-argument predicate over the order of the compared parts of its arguments"""
    def __init__(self, P, same=True):
        self.P = P; self.same = same; self.val = None; self.pairs = {}; self.wide = None

    # values: ("o", side, key), ("n", number)
    def run(self, body, env, val, depth=0):
        self.val = val
        return self.block(body, env, depth)

    def block(self, n, env, depth):
        if n is None:
            return None
        k = n.k
        if k == "CompoundStmt":
            for x in n.kids:
                r = self.block(x, env, depth)
                if r is not None:
                    return r
            return None
        if in_macro(n, "T8_ASSERT", "SC_ASSERT"):
            return None
        if k == "DeclStmt":
            for v in n.d["decls"]:
                i = n.fn.varinit.get(v["id"])
                if i is not None:
                    env[v["id"]] = i          # evaluated on use
            return None
        if k == "ReturnStmt":
            return ("ret", self.ex(n.kids[0], env, depth))
        if k == "IfStmt":
            c = self.truth(self.ex(n.c[2], env, depth))
            return self.block(n.c[3] if c else n.c[4] if len(n.c) > 4 else None, env, depth)
        if k in LOOPS or k in ("SwitchStmt", "GotoStmt", "CXXTryStmt"):
            raise Undecided()
        if k == "NullStmt" or k == "DoStmt":
            return None
        x = inner(n)
        if x.k == "BinaryOperator" and x.op == "=":
            d = varid(x.c[0])
            if d is None:
                raise Undecided()
            v = self.lazy(x.c[1], env, depth)
            env[d] = v
            return None
        if x.k == "BinaryOperator" and x.op == ",":
            self.block(x.c[0], env, depth); return self.block(x.c[1], env, depth)
        if x.k in ("IntegerLiteral", "DeclRefExpr", "CXXStaticCastExpr", "CStyleCastExpr"):
            return None
        raise Undecided()

    def lazy(self, n, env, depth):
        try:
            return self.ex(n, env, depth)
        except Undecided:
            return n

    def truth(self, v):
        if v[0] == "n":
            return v[1] != 0
        raise Undecided()

    def root(self, v):
        return v[0] == "o"

    def ex(self, n, env, depth):
        x = inner(n)
        c = cval(n)
        if c is None:
            c = cval(x)
        if c is not None:
            return ("n", c)
        k = x.k
        if k in ("CXXBoolLiteralExpr",):
            return ("n", int(bool(x.v)))
        if k == "DeclRefExpr":
            d = x.get("d")
            if d in env:
                v = env[d]
                return v if isinstance(v, tuple) else self.ex(v, env, depth)
            raise Undecided()
        if k == "MemberExpr" and x.kids:
            b = self.ex(x.kids[0], env, depth)
            if b[0] != "o":
                raise Undecided()
            return ("o", b[1], b[2] + "." + x.get("n"))
        if k == "UnaryOperator" and x.op in ("*", "&"):
            return self.ex(x.c[0], env, depth)
        if k == "ArraySubscriptExpr" and cval(x.c[1]) is not None:
            b = self.ex(x.c[0], env, depth)
            if b[0] != "o":
                raise Undecided()
            return ("o", b[1], b[2] + "[%d]" % cval(x.c[1]))
        if k == "UnaryOperator" and x.op == "!":
            return ("n", int(not self.truth(self.ex(x.c[0], env, depth))))
        if k == "UnaryOperator" and x.op in ("-", "+"):
            v = self.ex(x.c[0], env, depth)
            if v[0] != "n":
                raise Undecided()
            return ("n", -v[1] if x.op == "-" else v[1])
        if k == "ConditionalOperator":
            return self.ex(x.c[1] if self.truth(self.ex(x.c[0], env, depth)) else x.c[2], env, depth)
        if k == "BinaryOperator":
            if x.op in ("&&", "||"):
                l = self.truth(self.ex(x.c[0], env, depth))
                if l == (x.op == "||"):
                    return ("n", int(l))
                return ("n", int(self.truth(self.ex(x.c[1], env, depth))))
            l, r = self.ex(x.c[0], env, depth), self.ex(x.c[1], env, depth)
            if x.op == "-" and l[0] == r[0] == "o" and l[1] != r[1]:
                t = inner(x.c[0]).t
                if t is not None and t.k == "int" and (t.size or 0) > 4:
                    self.wide = x
                return ("n", self.cmp(l, r))
            if x.op in ("<", ">", "<=", ">=", "==", "!="):
                s = self.cmp(l, r)
                return ("n", int({"<": s < 0, ">": s > 0, "<=": s <= 0, ">=": s >= 0, "==": s == 0, "!=": s != 0}[x.op]))
            if l[0] == r[0] == "n":
                a, b = l[1], r[1]
                try:
                    return ("n", {"+": a + b, "-": a - b, "*": a * b, "|": a | b, "&": a & b, "^": a ^ b}[x.op])
                except KeyError:
                    pass
            raise Undecided()
        if x.is_call and depth < 4:
            return self.call(x, env, depth)
        raise Undecided()

    def call(self, x, env, depth):
        vs = []
        for a in x.args:
            if a is None:
                raise Undecided()
            try:
                vs.append(self.ex(a, env, depth))
            except Undecided:
                vs.append(None)
        sides = {v[1] for v in vs if v is not None and v[0] == "o" and inner(a).t is not None}
        fs = [f for f in self.P.resolve(x) if f.body is not None]
        ptr = {v[1] for v, a in zip(vs, x.args) if v is not None and v[0] == "o" and inner(a).t is not None and inner(a).t.k in ("ptr", "rec")}
        if len(ptr) == 2 and len(fs) == 1 and None not in vs:
            e = {}
            for p, v in zip(fs[0].params, vs):
                e[p["id"]] = v
            r = self.block(fs[0].body, e, depth + 1)
            if r is None:
                raise Undecided()
            return r[1]
        if len(ptr) == 1:
            s = next(iter(ptr))
            o = "B" if s == "A" else "A"
            key = "%s(%s)" % (x.cn, ",".join(self.name(v, a, s, env) for v, a in zip(vs, x.args)))
            return ("o", s, key)
        raise Undecided()

    def name(self, v, a, s, env):
        """argument of a call as seen from the side s"""
        y = inner(a)
        if y.t is not None and y.t.k not in ("ptr", "rec"):
            if v is not None and v[0] == "n":
                return str(v[1])
            return self.sym(y, s, env)
        return v[2] if v is not None and v[0] == "o" else y.src()

    def sym(self, y, s, env, depth=0):
        y = inner(y)
        if y.k == "DeclRefExpr":
            d = y.get("d")
            if isinstance(env.get(d), tuple):
                v = env[d]
                if v[0] == "o" and y.t.k in ("ptr", "rec"):
                    return ("" if v[1] == s else "~") + v[2]
                ws = assigned(y.fn, d, addr=False)
                i = y.fn.varinit.get(d)
                if i is None and len(ws) == 1 and ws[0].k == "BinaryOperator" and ws[0].op == "=":
                    i = ws[0].c[1]
                elif ws:
                    i = None
                if i is not None and depth < 5:
                    return self.sym(i, s, env, depth + 1)
                return "v%s" % d
            if env.get(d) is not None and depth < 5:
                return self.sym(env[d], s, env, depth + 1)
            return y.get("n") or "?"
        if y.k == "MemberExpr" and y.kids:
            return self.sym(y.kids[0], s, env, depth) + "." + y.get("n")
        if y.k == "ConditionalOperator":
            l, r = self.sym(y.c[1], s, env, depth), self.sym(y.c[2], s, env, depth)
            q = inner(y.c[0])
            if q.k == "BinaryOperator" and q.op in ("<", ">", "<=", ">="):
                a, b = self.sym(q.c[0], s, env, depth), self.sym(q.c[1], s, env, depth)
                if {a, b} == {l, r}:
                    mx = (a == l) == (q.op in (">", ">="))
                    return "%s{%s}" % ("max" if mx else "min", ",".join(sorted((a, b))))
            return "?(%s,%s,%s)" % (self.sym(q, s, env, depth), l, r)
        return "%s(%s)" % (y.op or y.cn or y.k, ",".join(self.sym(q, s, env, depth) for q in y.kids))

    def cmp(self, l, r):
        if l[0] == "n" and r[0] == "n":
            return (l[1] > r[1]) - (l[1] < r[1])
        if l[0] != "o" or r[0] != "o" or l[1] == r[1]:
            raise Undecided()
        flip = 1
        if l[1] == "B":
            l, r, flip = r, l, -1
        k = self.term(l[2], r[2])
        a, b = self.val
        if k not in a:
            raise NewTerm(k)
        return flip * ((a[k] > b[k]) - (a[k] < b[k]))

    def term(self, ka, kb):
        if ka == kb:
            return ka
        if self.same:
            raise Mismatch(ka, kb)
        fa, fb = ka.split(".")[-1] if "." in ka else "", kb.split(".")[-1] if "." in kb else ""
        if fa and fb and fa != fb:
            raise Mismatch(ka, kb)
        return "." + (fa or fb)


def table(P, params, body, same=True, ranks=3, limit=4):
    """(terms, function of two rank vectors) of a comparison function; raises Undecided or Mismatch"""
    terms = []
    ev = Ev(P, same)

    def f(a, b):
        env = {params[0]["id"]: ("o", "A", ""), params[1]["id"]: ("o", "B", "")}
        r = ev.run(body, env, (dict(zip(terms, a)), dict(zip(terms, b))))
        if r is None or r[1][0] != "n":
            raise Undecided()
        return r[1][1]
    while True:
        try:
            for a in itertools.product(range(2), repeat=len(terms)):
                for b in itertools.product(range(2), repeat=len(terms)):
                    f(a, b)
            break
        except NewTerm as e:
            terms.append(e.args[0])
            if len(terms) > 7:
                raise Undecided()
    if not terms:
        raise Undecided()
    return terms, f, ev


def sign(v):
    return (v > 0) - (v < 0)


def keys(terms, f, three):
    """lexicographic order of the terms, or a pair of rank vectors that shows there is none"""
    n = len(terms)
    left = list(range(n)); order = []
    g = (lambda a, b: sign(f(a, b))) if three else (lambda a, b: -1 if f(a, b) else 1 if f(b, a) else 0)
    while left:
        for i in left:
            ok = True
            rest = [j for j in left if j != i]
            for s in (0, 1):
                for o in itertools.product((0, 1, 2), repeat=len(rest)):
                    a, b = [1] * n, [1] * n
                    a[i], b[i] = (0, 1) if s == 0 else (1, 0)
                    for j, v in zip(rest, o):
                        b[j] = v
                    if g(tuple(a), tuple(b)) != (-1 if s == 0 else 1):
                        ok = False
            if ok:
                order.append(i); left.remove(i)
                break
        else:
            return order, left
    return order, []


def show(t):
    return t.lstrip(".") or "value"


def fnref(P, a):
    """(parameters, body, name, where) of a function or lambda handed as an argument"""
    x = inner(a)
    if x.k == "UnaryOperator" and x.op == "&":
        x = inner(x.c[0])
    if x.k == "DeclRefExpr" and x.get("dk") == "fn":
        f = P.fn(x.get("n"))
        if f is not None and f.body is not None:
            return f.params, f.body, f.qn, f.where, f
    for y in a.walk():
        if y.k == "LambdaExpr":
            return y.get("params"), y.kids[0], "comparison in " + y.fn.qn, y.where, y.fn
        if y.k == "DeclRefExpr" and y.get("dk") == "local" and y.fn.varinit.get(y.get("d")) is not None:
            for z in y.fn.varinit[y.get("d")].walk():
                if z.k == "LambdaExpr":
                    return z.get("params"), z.kids[0], "comparison in " + y.fn.qn, z.where, y.fn
    return None


def etype(params, body, f, i, P=None, depth=0):
    """type of the entries a comparison function treats its argument as"""
    d = params[i]["id"]
    t = f.tu.type(params[i]["t"])
    for _ in range(2):
        if t is not None and t.k in ("ptr", "ref"):
            t = t.to
    if t is not None and t.k != "void":
        return re.sub(r"\bconst\b|\bstruct\b|std::", "", t.cs).strip()
    for x in body.walk():
        if x.k in CASTS and x.t is not None and x.t.k == "ptr" and x.t.to is not None and x.t.to.k != "void" and varid(x) == d:
            return re.sub(r"\bconst\b|\bstruct\b", "", x.t.to.cs).strip()
    if P is not None and depth < 3:
        for x in body.walk():
            if x.is_call:
                for j, a in enumerate(x.args):
                    if a is not None and varid(a) == d:
                        for g in P.resolve(x):
                            if g.body is not None and j < len(g.params):
                                r = etype(g.params, g.body, g, j, P, depth + 1)
                                if r is not None:
                                    return r
    return None


def container(a):
    x = inner(a)
    if x.k == "UnaryOperator" and x.op == "&":
        x = inner(x.c[0])
    return x.get("n") if x.k == "MemberExpr" else None


def three_way(P, name, where, params, body, rep, same=True):
    try:
        terms, f, ev = table(P, params, body, same)
    except Undecided:
        rep.note("%s: not decided" % name)
        return None
    except Mismatch as e:
        rep.bad("mismatch:%s" % name, "%s compares %s of one entry with %s of the other" % (name, show(e.args[0]), show(e.args[1])), where)
        return None
    rep.ok("ordering function is a consistent order", "%s by %s" % (name, ", ".join(map(show, terms))))
    try:
        e = (0,) * len(terms)
        if f(e, e) != 0:
            rep.bad("reflexive:%s" % name, "%s does not return zero for equal entries" % name, where)
            return None
        order, left = keys(terms, f, True)
    except (Undecided, NewTerm):
        rep.note("%s: not decided" % name)
        return None
    if ev.wide is not None:
        rep.bad("narrow:%s" % name, "%s returns the difference of 64 bit values as int" % name, where)
    if left:
        rep.bad("order:%s" % name, "%s is no ordering: entries that differ in %s are not ordered consistently in both directions" % (name, ", ".join(show(terms[i]) for i in left)), where)
        return None
    return [show(terms[i]) for i in order]


def less(P, name, where, params, body, rep):
    try:
        terms, f, ev = table(P, params, body)
        e = (0,) * len(terms)
        rep.ok("ordering function is a consistent order", "%s by %s" % (name, ", ".join(map(show, terms))))
        if f(e, e):
            rep.bad("reflexive:%s" % name, "%s orders an entry before an equal one" % name, where)
            return None
        order, left = keys(terms, f, False)
    except Undecided:
        rep.note("%s: not decided" % name)
        return None
    except Mismatch as x:
        rep.bad("mismatch:%s" % name, "%s compares %s of one entry with %s of the other" % (name, show(x.args[0]), show(x.args[1])), where)
        return None
    if left:
        rep.bad("order:%s" % name, "%s is no ordering: entries that differ in %s are not ordered consistently in both directions" % (name, ", ".join(show(terms[i]) for i in left)), where)
        return None
    return [show(terms[i]) for i in order]


def equality(P, name, where, params, body, f0, rep):
    """fields an equality function compares; None if unknown"""
    try:
        terms, f, ev = table(P, params, body)
    except Undecided:
        return None
    except Mismatch as e:
        rep.bad("mismatch:%s" % name, "%s compares %s of one entry with %s of the other" % (name, show(e.args[0]), show(e.args[1])), where)
        return None
    rep.ok("equality function holds exactly for equal parts", "%s by %s" % (name, ", ".join(map(show, terms))))
    a = (1,) * len(terms)
    for b in itertools.product(range(3), repeat=len(terms)):
        v = bool(f(a, b))
        if v != (a == b):
            ds = [show(t) for t, p, q in zip(terms, a, b) if p != q]
            rep.bad("equal:%s" % name, "%s %s" % (name, "takes entries that differ in %s for equal" % ", ".join(ds) if ds else "takes equal entries for different"), where)
            return None
    return {t for t in terms}


def fields(f, body, d, P=None, depth=0):
    """(fields read through a parameter, nodes of the reads)"""
    root = {d}
    grown = True
    while grown:
        grown = False
        for x in body.walk():
            v = i = None
            if x.k == "DeclStmt":
                for y in x.d["decls"]:
                    i = f.varinit.get(y["id"])
                    if i is not None and y["id"] not in root and varid(i) in root:
                        root.add(y["id"]); grown = True
            elif x.k == "BinaryOperator" and x.op == "=" and varid(x.c[0]) is not None and varid(x.c[0]) not in root and varid(x.c[1]) in root:
                root.add(varid(x.c[0])); grown = True
    out = {}
    for x in body.walk():
        if x.k == "MemberExpr" and x.kids and varid(x.kids[0]) in root and not in_macro(x, "T8_ASSERT"):
            out.setdefault("." + x.get("n"), []).append(x)
        elif P is not None and x.is_call and depth < 3:
            for i, a in enumerate(x.args):
                if a is not None and varid(a) in root:
                    for g in P.resolve(x):
                        if g.body is not None and i < len(g.params):
                            for k, l in fields(g, g.body, g.params[i]["id"], P, depth + 1).items():
                                out.setdefault(k, []).extend(l)
    return out


def unordered(f, body):
    """the equality function compares entries of two arrays at different positions"""
    for x in body.walk():
        if x.k in LOOPS and counter(x) is not None:
            for y in x.walk():
                if y is not x and y.k in LOOPS and counter(y) is not None:
                    return True
    return False


def hash_pair(P, c, h, e, rep, known):
    hp, hb, hn, hw, hf = h
    ep, eb, en, ew, ef = e
    E = equality(P, en, ew, ep, eb, ef, rep)
    fa, fb = fields(ef, eb, ep[0]["id"], P), fields(ef, eb, ep[1]["id"], P)
    rep.ok("hash function and equality of a table", "%s: %s with %s" % (c, hn, en))
    if E is None:
        E = set(fa) & set(fb)
        if set(fa) != set(fb):
            rep.bad("equal:%s" % en, "%s reads %s of one entry but %s of the other" % (en, sorted(map(show, fa)), sorted(map(show, fb))), ew)
            return
    H = fields(hf, hb, hp[0]["id"], P)
    more = {k for k in H if not any(k == t or t.startswith(k + ".") or t.startswith(k + "[") for t in E)}
    if more:
        rep.bad("hash:%s" % hn, "%s depends on %s, which equal entries of the table (%s) may differ in" % (hn, ", ".join(sorted(map(show, more))), en), hw)
        return
    for k, l in H.items():
        for x in l:
            t = x.t
            p = x.parent
            while p is not None and p.k in CASTS and p.t is not None and p.t.k == "ptr":
                p = p.parent
            if t is not None and t.k == "ptr" and p is not None and p.k in CASTS and p.t is not None and p.t.k == "int":
                rep.bad("hash:%s" % hn, "%s depends on the address of %s" % (hn, show(k)), x.where)
    for x in hb.walk():
        if x.k == "DeclRefExpr" and (x.get("dk") == "slocal" or x.get("dk") == "global" and not x.get("const") and x.t is not None and x.t.k == "int" and "const" not in x.t.s):
            rep.bad("hash:%s" % hn, "%s depends on %s, which may change while entries are in the table" % (hn, x.get("n")), x.where)
        if x.is_call and x.cn in ("rand", "random", "time", "clock", "sc_rand"):
            rep.bad("hash:%s" % hn, "%s depends on %s" % (hn, x.cn), x.where)
    if unordered(ef, eb):
        rep.ok("hash value does not depend on the order of the parts", hn)
        any_loop = False
        for x in hb.walk():
            if x.k in LOOPS and counter(x) is not None:
                any_loop = True
                v, first, bound, incl = counter(x)
                if cval(first) != 0 or incl or not (inner(bound).k == "MemberExpr" or inner(bound).k == "DeclRefExpr"):
                    rep.bad("hash:%s" % hn, "%s does not take all parts into account although equality ignores their order" % hn, x.where)
                for y in x.walk():
                    if y.k == "CompoundAssignOperator" and y.op not in ("+=", "^=", "|=", "&=", "*="):
                        rep.bad("hash:%s" % hn, "%s depends on the order of the parts, which equality (%s) ignores" % (hn, en), y.where)
                    if y.k == "BinaryOperator" and y.op == "=" and varid(y.c[0]) is not None and varid(y.c[0]) in {z.get("d") for z in y.c[1].walk() if z.k == "DeclRefExpr"}:
                        r = inner(y.c[1])
                        d = varid(y.c[0])
                        if not (r.k == "BinaryOperator" and r.op in ("+", "^", "|", "&", "*") and (varid(r.c[0]) == d or varid(r.c[1]) == d)):
                            rep.bad("hash:%s" % hn, "%s depends on the order of the parts, which equality (%s) ignores" % (hn, en), y.where)
                    if y.k == "DeclRefExpr" and y.get("d") == v:
                        p = y.parent
                        while p is not None and p.k in CASTS:
                            p = p.parent
                        inloop = any(z is x.kids[-1] for z in y.ancestors())
                        if inloop and p is not None and not (p.k == "ArraySubscriptExpr" or p.k == "CXXOperatorCallExpr" and p.op == "[]" or p.k == "UnaryOperator" and p.op == "++" or by_plus(p)):
                            rep.bad("hash:%s" % hn, "%s depends on the order of the parts, which equality (%s) ignores" % (hn, en), y.where)
        for x in hb.walk():
            if x.k == "ArraySubscriptExpr" and cval(x.c[1]) is not None:
                rep.bad("hash:%s" % hn, "%s uses the part at position %d although equality (%s) ignores their order" % (hn, cval(x.c[1]), en), x.where)
    t = etype(ep, eb, ef, 0, P)
    if t is not None:
        known.setdefault(t, set()).update(E)


def by_plus(p):
    return p.k == "CompoundAssignOperator" or p.k == "BinaryOperator" and p.op in ("<", ">", "<=", ">=", "!=", "=")


STD = ("find", "count", "contains", "erase")
FIND = {"sc_hash_lookup": 1, "sc_hash_insert_unique": 1, "sc_hash_array_lookup": 1, "sc_hash_array_insert_unique": 1, "sc_hash_remove": 1}


def found(c):
    """the entry a call searches for or inserts"""
    if c.cn in FIND and len(c.args) > 1:
        return c.args[1]
    if c.k == "CXXMemberCallExpr" and c.cn in STD and len(c.args) == 1 and c.args[0] is not None:
        return c.args[0]
    return None


def queries(P, f, known, rep):
    """the key of an entry is set before every search or insertion with it, and not changed while it is in the table"""
    cs = [c for c in f.calls() if found(c) is not None]
    if not cs or f.cfg is None:
        return
    vars_ = {}
    for c in cs:
        y = inner(found(c))
        if y.k == "UnaryOperator" and y.op == "&":
            y = inner(y.c[0])
        if y.k != "DeclRefExpr" or y.get("dk") != "local":
            continue
        t = y.t
        if t is not None and t.k == "ptr":
            t = t.to
        n = re.sub(r"\bconst\b|\bstruct\b", "", t.cs).strip() if t is not None else None
        if n in known:
            vars_[y.get("d")] = (known[n], y.get("n"), t)
    for d, (ks, name, t) in vars_.items():
        ks = {k for k in ks if k.count(".") == 1 and "[" not in k}
        walk(P, f, d, ks, name, rep)


def target(x, d):
    """name of the field of d that an lvalue names ('' for d itself)"""
    y = inner(x)
    fs = []
    while True:
        if y.k == "MemberExpr" and y.kids:
            fs.append(y.get("n")); y = inner(y.kids[0])
        elif y.k == "ArraySubscriptExpr":
            y = inner(y.c[0])
        elif y.k == "UnaryOperator" and y.op in ("*", "&"):
            y = inner(y.c[0])
        else:
            break
    if y.k == "DeclRefExpr" and y.get("d") == d:
        return "." + fs[-1] if fs else ""
    return None


def walk(P, f, d, ks, name, rep):
    # state: (fields set, fields set since the last search, in the table)
    g = f.cfg
    init = (frozenset(), frozenset(), None)
    st = [(g.entry, init, frozenset())]; seen = set(); bad = set(); told = set()
    while st:
        b, s, assumed = st.pop()
        if (b, s, assumed) in seen or len(seen) > 20000:
            continue
        seen.add((b, s, assumed))
        B = g.b[b]
        cond = f.nodes.get(B.cond) if B.cond is not None else None
        last = None
        for e in B.s:
            n = f.nodes.get(e) if e >= 0 else None
            if n is None:
                continue
            if n.k == "DeclStmt":
                for v in n.d["decls"]:
                    if v["id"] == d:
                        i = f.varinit.get(d)
                        s = (frozenset(ks) if i is not None and inner(i).k in ("InitListExpr",) and len(inner(i).kids) >= 1 else frozenset(), frozenset(), None)
                        s = (s[0], s[0], None)
            elif n.k in ("BinaryOperator", "CompoundAssignOperator") and n.op.endswith("=") and n.op not in ("==", "<=", ">=", "!="):
                w = target(n.c[0], d)
                if w == "":
                    s = (frozenset(), frozenset(), None)
                    if inner(n.c[0]).k == "UnaryOperator" or inner(n.c[0]).t is not None and inner(n.c[0]).t.k == "rec":
                        s = (frozenset(ks), frozenset(ks), s[2])
                elif w in ks:
                    if s[2] == "in" and ("in", n.where) not in bad:
                        bad.add(("in", n.where))
                        rep.bad("changed:%s:%s" % (f.qn, name), "%s changes %s of %s while the entry is in the table" % (f.qn, show(w), name), n.where)
                    s = (s[0] | {w}, s[1] | {w}, s[2])
            elif n.is_call:
                if found(n) is not None and target(found(n), d) == "":
                    if n.where not in told:
                        told.add(n.where)
                        rep.ok("entry with its key set before it is searched or inserted", n.where)
                    miss = ks - s[0] if n.cn != "sc_hash_remove" else ()
                    if miss and n.where not in bad:
                        bad.add(n.where)
                        rep.bad("unset:%s:%s" % (f.qn, name), "%s: %s of %s is not set on a path to %s" % (f.qn, ", ".join(sorted(map(show, miss))), name, n.cn), n.where)
                    elif n.cn != "sc_hash_remove" and ks and not (s[1] & ks) and n.where not in bad:
                        bad.add(n.where)
                        rep.bad("stale:%s:%s" % (f.qn, name), "%s: %s again with the key of the search before" % (f.qn, n.cn), n.where)
                    s = (s[0], frozenset(), "maybe" if "insert" in n.cn else s[2])
                    last = n
                else:
                    for i, a in enumerate(n.args):
                        if a is not None and target(a, d) == "" and inner(a).t is not None and inner(a).t.k == "ptr":
                            # filled by a function
                            if n.cn not in FIND and not const_param(P, n, i):
                                s = (frozenset(ks), frozenset(ks), s[2])
        if B.noret:
            continue
        succ = [x for x in B.succ]
        for i, x in enumerate(succ):
            if x is None:
                continue
            s2 = s
            if cond is not None and len(succ) == 2 and s[2] == "maybe":
                r = inserted(cond, f, d)
                if r is not None:
                    s2 = (s[0], s[1], "in" if r == (i == 0) else "out")
            st.append((x, s2, assumed))


def const_param(P, c, i):
    from .batch import constarg
    return constarg(P, c, i)


def inserted(cond, f, d):
    """truth value of the condition for which the entry was put into the table"""
    x = inner(cond)
    v = True
    while x.k == "UnaryOperator" and x.op == "!":
        v = not v; x = inner(x.c[0])
    if x.k == "BinaryOperator" and x.op in ("==", "!=") and cval(x.c[1]) == 0:
        v = not v if x.op == "==" else v
        x = inner(x.c[0])
    if x.k == "BinaryOperator" and x.op in ("==", "!=") and cval(x.c[1]) == 1:
        v = not v if x.op == "!=" else v
        x = inner(x.c[0])
    if x.is_call and x.cn == "sc_hash_insert_unique" and target(x.args[1], d) == "":
        return v
    if x.k == "DeclRefExpr" and x.get("dk") == "local":
        ws = [w for w in assigned(f, x.get("d"), addr=False)]
        rs = [inner(w.c[1]) for w in ws if w.k == "BinaryOperator"] + ([inner(f.varinit[x.get("d")])] if f.varinit.get(x.get("d")) is not None else [])
        if any(r.is_call and r.cn == "sc_hash_insert_unique" and target(r.args[1], d) == "" for r in rs):
            return v
    return None


def sorted_first(P, rep):
    """attributes are ordered before they are given to the trees, where they are searched"""
    USE = ("t8_cmesh_trees_add_attribute", "t8_cmesh_trees_add_ghost_attribute")
    SORTED = "t8_stash_attribute_sort"
    need = {}

    def unsorted(f, names):
        """calls of names that a path reaches without the sort"""
        g = f.cfg
        out = []
        st = [g.entry]; seen = set()
        while st:
            b = st.pop()
            if b in seen:
                continue
            seen.add(b)
            B = g.b[b]
            stop = False
            for e in B.s:
                n = f.nodes.get(e) if e >= 0 else None
                if n is not None and n.is_call:
                    if n.cn == SORTED or sorts(n):
                        stop = True; break
                    if n.cn in names:
                        out.append(n)
            if not stop and not B.noret:
                st += [x for x in B.succ if x is not None]
        return out

    memo = {}

    def sorts(c, depth=0):
        for g in P.resolve(c):
            if g.body is None or depth > 2 or "stash" not in " ".join(x.cn or "" for x in g.calls()) and depth == 0 and not any(x.cn == SORTED for x in g.calls()):
                continue
            k = g.key
            if k not in memo:
                memo[k] = False
                memo[k] = any(x.cn == SORTED and x.parent is g.body for x in g.calls())
            if memo[k]:
                return True
        return False
    names = set(USE)
    users = [f for f in P.all if not f.tmpl and f.body is not None and f.cfg is not None and f.n not in USE and any(c.cn in USE for c in f.calls())]
    done = set()
    while users:
        f = users.pop()
        if f.key in done:
            continue
        done.add(f.key)
        bad = unsorted(f, names)
        rep.ok("attributes sorted before they are given to the trees", f.qn)
        if not bad:
            continue
        callers = [g for g in P.all if not g.tmpl and g.body is not None and g.cfg is not None and any(c.cn == f.n for c in g.calls())]
        if not callers or not f.d.get("internal"):
            rep.bad("unsorted:%s" % f.qn, "%s gives attributes to the trees that were not sorted on every path (%s); searching them by key fails" % (f.qn, bad[0].src()[:60]), bad[0].where)
            continue
        if f.n in names:
            continue
        names.add(f.n)
        for g in callers:
            done.discard(g.key)
            users.append(g)


def leaves(P, t, depth=0):
    r = P.records.get(t)
    if r is None or depth > 3:
        return []
    out = []
    for m in r.get("fields", ()):
        n = r["_tu"].type(m["t"]).cs
        sub = leaves(P, re.sub(r"\bconst\b|\bstruct\b", "", n).strip(), depth + 1)
        out += ["." + m["n"] + x for x in sub] if sub else ["." + m["n"]]
    return out


def run_P31(P, rep):
    sorts, finds, hashes = [], [], []
    seen = set()
    for f in P.all:
        if f.tmpl or f.body is None:
            continue
        for c in f.calls():
            if c.where in seen:
                continue
            if c.cn in SORT and len(c.args) > SORT[c.cn]:
                seen.add(c.where); sorts.append((c, f))
            elif c.cn in SEARCH and len(c.args) > SEARCH[c.cn]:
                seen.add(c.where); finds.append((c, f))
            elif c.cn in ("sc_hash_new", "sc_hash_array_new"):
                seen.add(c.where); hashes.append((c, f))
    done = {}
    byc = {}
    bytype = {}
    sorts.sort(key=lambda e: (e[1].key, e[0].l))
    for c, f in sorts:
        r = fnref(P, c.args[SORT[c.cn]])
        if r is None:
            continue
        params, body, name, where, g = r
        if (name, where) not in done:
            done[(name, where)] = (less if c.cn in ("sort", "stable_sort") else three_way)(P, name, where, params, body, rep)
        ks = done[(name, where)]
        t = etype(params, body, g, 0)
        if ks is None:
            if t in ORDER:
                bytype.setdefault(t, []).append(None)
            continue
        rep.ok("container sorted by what its users rely on", "%s %s by %s" % (c.where, t, ", ".join(ks)))
        if container(c.args[0]) is not None:
            byc.setdefault(container(c.args[0]), []).append((ks, name))
        if t in ORDER:
            bytype.setdefault(t, []).append((ks, name, where, c))
    for t, l in bytype.items():
        for i, e in enumerate(l):
            if e is None:
                continue
            ks, name, where, c = e
            want = ORDER[t][min(i, len(ORDER[t]) - 1)]
            if ks[:len(want)] != want:
                rep.bad("sorted:%s:%d" % (t, i), "%s: entries are sorted by %s, but their users rely on the order by %s" % (c.fn.qn, ", ".join(ks), ", ".join(want)), c.where)
    for c, f in finds:
        r = fnref(P, c.args[SEARCH[c.cn]])
        if r is None:
            continue
        params, body, name, where, g = r
        same = etype(params, body, g, 0) == etype(params, body, g, 1)
        ks = three_way(P, name, where, params, body, rep, same)
        if ks is None:
            continue
        n = container(c.args[0])
        rep.ok("container searched in the order it is sorted", "%s by %s" % (c.where, ", ".join(ks)))
        so = byc.get(n) if n is not None else None
        t = etype(params, body, g, 1)
        if so is None and t.startswith("t8_attribute_info") and "attributes" in byc:
            so = [(k[1:] if k[:1] == ["id"] else k, m) for k, m in byc["attributes"]]
        if so is not None and so[0][0][:len(ks)] != ks:
            rep.bad("search:%s" % name, "%s searches by %s but the container is sorted by %s (%s)" % (name, ", ".join(ks), ", ".join(so[0][0]), so[0][1]), where)
    # orderings and equalities of elements
    for f in P.all:
        if f.tmpl or f.body is None or len(f.params) != 2 or not re.match(r"t8_d\w+_(compare|equal|is_equal)$", f.n):
            continue
        if f.n.endswith("compare"):
            ks = three_way(P, f.n, f.where, f.params, f.body, rep)
            for k in ks or ():
                if "min{" in k:
                    rep.bad("level:%s" % f.n, "%s compares the positions of the elements at the coarser of both levels" % f.n, f.where)
        else:
            E = equality(P, f.n, f.where, f.params, f.body, f, rep)
            t = etype(f.params, f.body, f, 0)
            if E is not None and t is not None:
                for m in leaves(P, t):
                    rep.ok("member taken into account by equality", "%s %s" % (f.n, m))
                    if m not in E:
                        rep.bad("member:%s:%s" % (f.n, m), "%s takes elements that differ in %s for equal" % (f.n, show(m)), f.where)
    known = {}
    for c, f in hashes:
        i = 0 if c.cn == "sc_hash_new" else 1
        h, e = fnref(P, c.args[i]), fnref(P, c.args[i + 1])
        if h is None or e is None:
            continue
        hash_pair(P, c.where, h, e, rep, known)
    hs = [f for f in P.all if f.n == "operator()" and "hash" in f.qn.split("::")[-2].lower() and f.body is not None and not f.tmpl and len(f.params) == 1]
    es = [f for f in P.all if f.n == "operator()" and "equal" in f.qn.split("::")[-2].lower() and f.body is not None and not f.tmpl and len(f.params) == 2]
    for h in hs:
        for e in es:
            if etype(h.params, h.body, h, 0) == etype(e.params, e.body, e, 0):
                hash_pair(P, h.where, (h.params, h.body, h.qn, h.where, h), (e.params, e.body, e.qn, e.where, e), rep, known)
    for f in P.all:
        if not f.tmpl and f.body is not None:
            queries(P, f, known, rep)
    sorted_first(P, rep)
    rep.need("ordering function is a consistent order", 5)
    rep.need("hash function and equality of a table", 3)
    rep.need("entry with its key set before it is searched or inserted", 4)
