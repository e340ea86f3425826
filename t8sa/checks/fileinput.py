"""P16: file input is parsed defensively and formatted text uses the right conversions."""
import re
from ..lib import varid, in_macro, cval
from ..paths import explore, by_decl, TooMany, is_null, guards
from ..model import CASTS, LOOPS

PRINTF = {"printf": 0, "fprintf": 1, "sprintf": 1, "snprintf": 2, "t8_logf": 2, "t8_global_errorf": 0, "t8_global_essentialf": 0, "t8_global_productionf": 0,
          "t8_global_infof": 0, "t8_errorf": 0, "t8_productionf": 0, "t8_infof": 0, "t8_debugf": 0, "t8_statisticsf": 0, "t8_essentialf": 0, "t8_global_debugf": 0,
          "SC_ABORTF": 0, "SC_CHECK_ABORTF": 1, "sc_abort_verbosef": 2}
SCANF = {"scanf": 0, "fscanf": 1, "sscanf": 1}
SPEC = re.compile(r"%(?:(%)|([-+ #0']*)(\*|\d+)?(?:\.(\*|\d+)?)?(hh|h|ll|l|j|z|t|L|q)?([diouxXeEfFgGaAcspn]))")
SSPEC = re.compile(r"%(?:(%)|(\*)?(\d+)?(hh|h|ll|l|j|z|t|L|q)?([diouxXeEfFgGaAcspn]|\[\^?\]?[^\]]*\]))")
WIDTH = {None: 32, "hh": 8, "h": 16, "l": 64, "ll": 64, "j": 64, "z": 64, "t": 64, "q": 64}


def literal(n):
    n = n.strip()
    while n.k in CASTS and n.kids:
        n = n.kids[0].strip()
    return n.get("s") if n.k == "StringLiteral" else None


def fits(t, conv, ln, scan):
    """is an argument of type t right for this conversion"""
    if t is None:
        return True
    if scan:
        if t.k != "ptr":
            return t.k == "arr" and (conv in "sc" or conv[0] == "[")
        e = t.to
        if e is None:
            return True
        if conv in "diouxX":
            return e.k in ("int", "bool", "enum") and e.w == WIDTH.get(ln)
        if conv in "eEfFgGaA":
            return e.k == "flt" and e.w == {None: 32, "l": 64}.get(ln, e.w)
        if conv == "n":
            return e.k == "int" and e.w == WIDTH.get(ln)
        if conv in "sc" or conv[0] == "[":
            return e.k in ("int", "arr") and (e.k == "arr" or e.w == 8)
        return True
    if conv in "diouxX":
        return t.k in ("int", "bool", "enum") and (t.w or 32) <= 64 and max(t.w or 32, 32) == max(WIDTH.get(ln), 32)
    if conv == "c":
        return t.k in ("int", "bool", "enum") and (t.w or 32) <= 32
    if conv in "eEfFgGaA":
        return t.k == "flt"
    if conv == "s":
        return t.k in ("ptr", "arr") and (t.to is None or t.to.k in ("int", None) and t.to.w in (8, None))
    if conv == "p":
        return t.k in ("ptr", "arr", "func", "nullptr") or t.k == "int" and t.w == 64
    return True


def run_formats(P, rep):
    for f in P.all:
        if f.tmpl or f.body is None:
            continue
        for n in f.calls():
            scan = n.cn in SCANF
            if not scan and n.cn not in PRINTF:
                continue
            i = SCANF[n.cn] if scan else PRINTF[n.cn]
            if i >= len(n.args) or n.args[i] is None:
                continue
            fmt = literal(n.args[i])
            if fmt is None:
                t = n.args[i].strip()
                if varid(t) is not None and f.n in ("t8_logf",):
                    continue
                rep.note("format is not a literal: %s in %s" % (t.src()[:50], f.n))
                continue
            specs = []
            for m in (SSPEC if scan else SPEC).finditer(fmt):
                if m.group(1):
                    continue
                if scan:
                    if m.group(2):
                        continue
                    specs.append((m.group(5), m.group(4), m.group(3)))
                else:
                    if m.group(3) == "*":
                        specs.append(("d", None, None))
                    if m.group(4) == "*":
                        specs.append(("d", None, None))
                    specs.append((m.group(6), m.group(5), None))
            args = n.args[i + 1:]
            what = "%s in %s" % (n.cn, f.n)
            if len(args) != len(specs):
                rep.bad("format:%s:%s" % (f.n, fmt[:30].strip()), "%s: %d conversions in \"%s\" but %d arguments" % (what, len(specs), fmt.strip()[:60], len(args)), n.where)
                continue
            good = True
            for (conv, ln, width), a in zip(specs, args):
                if a is None:
                    continue
                t = a.strip().t if not scan and a.strip().t is not None and a.strip().t.k == "arr" else a.t
                if not fits(t, conv, ln, scan):
                    good = False
                    rep.bad("format:%s:%s" % (f.n, a.src()[:40]), "%s: conversion %%%s%s does not match '%s' of type %s" % (what, ln or "", conv, a.src()[:60], t.s), n.where)
                if scan and (conv == "s" or conv[0] == "["):
                    b = a.strip()
                    size = b.t.n if b.t is not None and b.t.k == "arr" else None
                    if width is None or size is not None and int(width) + 1 > size:
                        good = False
                        rep.bad("bounded:%s:%s" % (f.n, a.src()[:40]), "%s: %%%ss may write more than the %s bytes of '%s'" % (what, width or "", size, a.src()[:40]), n.where)
            if good:
                rep.ok("input conversion" if scan else "output conversion", "%s:%d" % (f.n, n.l))
    rep.need("input conversion", 5)
    rep.need("output conversion", 100)


def actual(c, v):
    """truth of the comparison as written, from the truth of its canonical form"""
    return not v if c.op in ("!=", ">=", "<=") else v


def base_var(a):
    """variable a scanf argument points into"""
    n = a.strip()
    while True:
        if n.k in CASTS and n.kids or n.k == "ParenExpr":
            n = n.kids[0]
        elif n.k == "UnaryOperator" and n.op in ("&", "*"):
            n = n.c[0]
        elif n.k == "ArraySubscriptExpr":
            n = n.c[0]
        elif n.k == "CXXOperatorCallExpr" and n.op == "[]" and n.args:
            n = n.args[0]
        elif n.k == "BinaryOperator" and n.op in ("+", "-"):
            n = n.c[0]
        elif n.k == "MemberExpr" and n.kids:
            n = n.kids[0]
        elif n.k == "DeclRefExpr":
            return n.get("d")
        else:
            return None


def holder(n):
    """variable that receives the result of this call"""
    p = n.parent
    while p is not None and (p.k in CASTS or p.k in ("ParenExpr", "ExprWithCleanups") or p.k == "ConditionalOperator" and any(cval(x) is not None and cval(x) <= 0 for x in p.c[1:])):
        p = p.parent
    if p is not None and p.k == "BinaryOperator" and p.op == "=":
        return varid(p.c[0])
    if p is not None and p.k == "CompoundAssignOperator" and p.op == "+=":
        return varid(p.c[0])
    if p is not None and p.k == "DeclStmt":
        for v in p.d["decls"]:
            if v["id"] in n.fn.varinit and any(x is n for x in n.fn.varinit[v["id"]].walk()):
                return v["id"]
    return ("call", n.i)


READLINE = {"t8_cmesh_msh_read_next_line", "getline", "t8_cmesh_triangle_read_next_line", "fgets"}


def run_scans(P, rep):
    """values are only used after the number of conversions was checked"""
    for f in P.all:
        if f.tmpl or f.body is None or f.cfg is None:
            continue
        scans = [n for n in f.calls() if n.cn in SCANF]
        reads = [n for n in f.calls() if n.cn in READLINE]
        if not scans and not reads:
            continue
        targets = {}
        info = {}
        for n in scans:
            fmt = literal(n.args[SCANF[n.cn]]) or ""
            l = []
            for k, a in enumerate(n.args[SCANF[n.cn] + 1:]):
                d = base_var(a)
                if d is not None:
                    l.append((d, k + 1)); targets.setdefault(d, []).append(n)
            info[n.i] = (l, holder(n), fmt)
        lines = {}
        for n in reads:
            d = base_var(n.args[0])
            if d is not None and f.n not in READLINE:
                lines[n.i] = (d, holder(n))
        linevars = {d for d, h in lines.values()}
        bad = {}

        def inside(n, calls):
            return any(a in calls for a in n.ancestors())

        def step(n, s):
            if isinstance(n, tuple):
                pend, hdr = s
                d = n[1]
                if any(r.i in info or r.i in lines for r in n[2].walk()):
                    return s
                return frozenset(x if x[2] != d else (x[0], x[1], None) for x in pend if x[0] != d), hdr
            pend, hdr = s
            if n.i in info:
                l, h, fmt = info[n.i]
                # the source line must be fresh
                src = base_var(n.args[0])
                for x in pend:
                    if x[0] == src and src in linevars and n.cn == "sscanf":
                        bad.setdefault((n.args[0].src(), "line"), n)
                        return None
                ds = {d for d, k in l}
                pend = frozenset((x[0], x[1], None) if x[2] == h else x for x in pend if x[0] not in ds or x[2] == h and False)
                pend |= {(d, k, h) for d, k in l}
                return pend, ("header" if fmt.strip().endswith("s") else "data")
            if n.i in lines:
                d, h = lines[n.i]
                discarded = isinstance(h, tuple) and n.parent is not None and n.parent.k in CASTS and n.parent.t is not None and n.parent.t.s == "void"
                pend = frozenset((x[0], x[1], None) if x[2] == h else x for x in pend if x[0] != d)
                if discarded or isinstance(h, tuple) and n.parent is not None and n.parent.k == "CompoundStmt":
                    if hdr == "data":
                        bad.setdefault((n.args[0].src(), "discarded"), n)
                        return None
                    return pend, hdr
                return pend | {(d, -1, h)}, hdr
            if n.k == "BinaryOperator" and n.op == "=" and n.c[0].strip().k == "DeclRefExpr":
                d = varid(n.c[0])
                if not any(r.i in info or r.i in lines for r in n.c[1].walk()):
                    pend = frozenset((x[0], x[1], None) if x[2] == d else x for x in pend if x[0] != d)
                return pend, hdr
            if n.k == "DeclRefExpr" and any(x[0] == n.get("d") and x[1] > 0 for x in pend):
                d = n.get("d")
                if any(a.is_call and a.cn in SCANF for a in n.ancestors()):
                    return s
                p = n.parent
                if p is not None and p.k == "BinaryOperator" and p.op == "=" and p.c[0].strip() is n:
                    return s
                if p is not None and p.k == "UnaryExprOrTypeTraitExpr":
                    return s
                if any(a.is_call and a.cn in PRINTF for a in n.ancestors()):
                    return s
                bad.setdefault((n.get("n"), "count"), n)
                return None
            return s

        def edge(c, v, s):
            pend, hdr = s
            if not pend:
                return s
            c = c.strip()
            if c.k == "BinaryOperator" and c.op in ("==", "!=", "<", ">", "<=", ">="):
                l, r, op = c.c[0], c.c[1], c.op
                k = cval(r)
                if k is None and cval(l) is not None:
                    l, r = r, l
                    k = cval(r)
                    op = {"<": ">", ">": "<", "<=": ">=", ">=": "<="}.get(op, op)
                if k is None:
                    return s
                x = l.strip()
                h = varid(l)
                if h is None and x.is_call:
                    h = ("call", x.i)
                if h is None:
                    return s
                t = actual(c, v)
                least = None
                if op == "==" and t or op == "!=" and not t or op == ">=" and t or op == "<" and not t:
                    least = k
                elif op == ">" and t or op == "<=" and not t:
                    least = k + 1
                if least is not None:
                    return frozenset(x for x in pend if not (x[2] == h and (x[1] <= least if x[1] > 0 else least >= 0))), hdr
            else:
                # compared with zero: v says that it is not zero
                h = varid(c)
                x = c.strip()
                if h is None and x.is_call:
                    h = ("call", x.i)
            return s
        try:
            explore(f, (frozenset(), "init"), by_decl(f, step), edge, only=lambda k: False, limit=60000)
        except TooMany:
            rep.note("too many paths: %s" % f.n)
            continue
        for (name, why), n in bad.items():
            if why == "count":
                rep.bad("unchecked:%s:%s" % (f.n, name), "%s uses '%s' read from a file although not all conversions may have succeeded" % (f.n, name), n.where)
            elif why == "line":
                rep.bad("line:%s:%s" % (f.n, name), "%s parses '%s' although reading the line may have failed" % (f.n, name), n.where)
            else:
                rep.bad("discarded:%s:%s" % (f.n, name), "%s ignores that no further line could be read and would parse the previous data again" % f.n, n.where)
        if not bad:
            for n in scans:
                rep.ok("parsed values used after the number of conversions was checked", "%s:%d" % (f.n, n.l))
            for n in reads:
                rep.ok("line read", "%s:%d" % (f.n, n.l))
    rep.need("parsed values used after the number of conversions was checked", 5)


def obj(n):
    """the object of a member call"""
    if n.k != "CXXMemberCallExpr" or not n.c or n.c[0] is None:
        return None
    m = n.c[0].strip()
    return m.kids[0] if m.k == "MemberExpr" and m.kids else None


def is_stream(t):
    return t is not None and bool(re.search(r"basic_?(istream|ifstream|istringstream|ios)|std::(istream|ifstream|istringstream|stringstream)|__istream_type", t.s + " " + (t.cs or "")))


def extraction(n):
    return n.k == "CXXOperatorCallExpr" and n.op == ">>" and len(n.args) == 2 and is_stream(n.t)


def chain_targets(n):
    """(variables read, root) of a chain of extractions"""
    out = []
    while extraction(n):
        d = base_var(n.args[1])
        t = n.args[1].strip().t
        out.append((d, t, n.args[1].src()))
        n = n.args[0].strip()
        while n.k in CASTS and n.kids:
            n = n.kids[0].strip()
    return out


def run_streams(P, rep):
    """numbers taken out of a stream are only used after the extraction was tested"""
    for f in P.all:
        if f.tmpl or f.body is None or f.cfg is None:
            continue
        ex = [n for n in f.walk() if extraction(n)]
        if not ex:
            continue
        bad = {}
        roots = [n for n in ex if not (n.parent is not None and any(extraction(a) for a in n.ancestors()))]
        tg = {}
        preset = {varid(n.c[0]) for n in f.walk() if n.k == "BinaryOperator" and n.op == "=" and cval(n.c[1]) is not None}
        for r in roots:
            tg[r.i] = frozenset(d for d, t, src in chain_targets(r) if d is not None and t is not None and (t.k in ("int", "flt") and t.w != 8))

        def step(n, s):
            if isinstance(n, tuple):
                return frozenset(x for x in s if x[0] != n[1])
            if n.i in tg:
                return frozenset(x for x in s if x[0] not in tg[n.i]) | {(d, n.i) for d in tg[n.i]}
            if n.k == "BinaryOperator" and n.op == "=" and n.c[0].strip().k == "DeclRefExpr":
                return frozenset(x for x in s if x[0] != varid(n.c[0]))
            if n.k == "DeclRefExpr" and any(x[0] == n.get("d") for x in s):
                if any(extraction(a) for a in n.ancestors()):
                    return s
                p = n.parent
                while p is not None and p.k in CASTS:
                    p = p.parent
                if p is not None and p.k == "BinaryOperator" and p.op in ("==", "!=", "<", ">", "<=", ">=") and any(cval(y) is not None for y in p.c):
                    return frozenset(x for x in s if x[0] != n.get("d")) if n.get("d") in f.varinit or n.get("d") in preset else s
                if any(a.is_call and a.cn in PRINTF for a in n.ancestors()):
                    return s
                bad.setdefault(n.get("n"), n)
                return None
            return s

        def edge(c, v, s):
            x = c.strip()
            neg = x.k == "CXXOperatorCallExpr" and x.op == "!"
            if neg:
                x = x.args[0]
            hit = [y for y in x.walk() if y.i in tg]
            ok = v != neg
            if hit and ok:
                return frozenset(y for y in s if y[1] != hit[0].i)
            if not hit and ok and any(is_stream(y.t) for y in x.walk() if y.k == "DeclRefExpr") and not any(y.is_call and y.cn == "getline" for y in x.walk()):
                return frozenset()
            return s
        try:
            explore(f, frozenset(), by_decl(f, step), edge, only=lambda k: False, limit=40000)
        except TooMany:
            rep.note("too many paths: %s" % f.n)
            continue
        for name, n in bad.items():
            rep.bad("extraction:%s:%s" % (f.n, name), "%s uses '%s' read from a stream without testing that it could be read" % (f.n, name), n.where)
        if not bad:
            for r in roots:
                rep.ok("stream extraction tested before use", "%s:%d" % (f.n, r.l))


# ---- indices, sizes and divisors that come from a file

def sizes_of(f):
    """container variable or member -> [(size expression, node)] from constructor, resize"""
    out = {}
    for v, init in f.varinit.items():
        x = init.strip() if init is not None else None
        if x is not None and x.k == "CXXConstructExpr" and x.t is not None and ("vector<" in (x.t.cs or x.t.s) or "vector" in x.t.s):
            a = [y for y in x.args if y is not None and y.k != "CXXDefaultArgExpr"]
            if a and a[0].t is not None and a[0].t.k == "int":
                out.setdefault(("v", v), []).append(a[0])
    for n in f.calls():
        if n.k == "CXXMemberCallExpr" and n.cn in ("resize", "assign") and n.args and obj(n) is not None:
            o = obj(n).strip()
            k = ("v", o.get("d")) if o.k == "DeclRefExpr" else ("m", o.src())
            if n.args[0].t is not None and n.args[0].t.k == "int":
                out.setdefault(k, []).append(n.args[0])
    return out


def inner(n):
    n = n.strip()
    while n.k in CASTS and n.kids:
        n = n.kids[0].strip()
    return n


def loop_cond(n):
    return n.c[1] if n.k == "ForStmt" else next((k for k in n.kids[:-1]), None)


def run_bounds(P, rep):
    # functions that fill a container parameter from a stream
    fills = {}
    for f in P.all:
        if f.tmpl or f.body is None:
            continue
        if any(extraction(n) for n in f.walk()):
            for i, p in enumerate(f.params):
                t = f.ptype(i)
                if t is not None and "vector" in t.s and not t.pointee_const and ("&" in t.s):
                    fills.setdefault(f.key, set()).add(i)
    for f in P.all:
        if f.tmpl or f.body is None or f.cfg is None:
            continue
        src = set(); cont = set()
        for n in f.calls():
            if n.cn in SCANF:
                for a in n.args[SCANF[n.cn] + 1:]:
                    d = base_var(a)
                    x = a.strip()
                    if d is not None and x.k == "UnaryOperator" and inner(x.c[0]).k == "DeclRefExpr":
                        src.add(d)
            for g in P.resolve(n):
                for i in fills.get(g.key, ()):
                    if i < len(n.args) and varid(n.args[i]) is not None:
                        cont.add(varid(n.args[i]))
        for n in f.walk():
            if extraction(n):
                for d, t, _ in chain_targets(n):
                    if d is not None and t is not None and t.k == "int" and t.w != 8:
                        src.add(d)
        if not src and not cont:
            continue
        tainted = set(src)
        start = {}
        for _ in range(4):
            for n in f.walk():
                if n.k == "BinaryOperator" and n.op == "=" and n.c[0].strip().k == "DeclRefExpr":
                    d = varid(n.c[0]); r = n.c[1]
                elif n.k == "DeclStmt":
                    for v in n.d["decls"]:
                        if v["id"] in f.varinit and f.varinit[v["id"]] is not None:
                            r = f.varinit[v["id"]]
                            t = r.t
                            if t is not None and t.k in ("int", "enum") and (any(x.k == "DeclRefExpr" and x.get("d") in tainted for x in r.walk() if not any(a.k == "ArraySubscriptExpr" for a in x.ancestors())) or any(x.k == "DeclRefExpr" and x.get("d") in cont for x in r.walk())):
                                if not any(x.is_call and x.cn in ("size",) for x in r.walk()):
                                    tainted.add(v["id"])
                    continue
                elif n.k in ("ForStmt", "WhileStmt") and loop_cond(n) is not None:
                    c = loop_cond(n).strip()
                    if c.k == "BinaryOperator" and c.op in ("<", "<=", "!=") and varid(c.c[1]) in tainted:
                        # everything that is counted in this loop
                        for x in n.walk():
                            if x.k == "UnaryOperator" and x.op == "++" and varid(x.c[0]) is not None:
                                own = next((a for a in x.ancestors() if a.k in LOOPS), None)
                                if own is n:
                                    tainted.add(varid(x.c[0]))
                    continue
                else:
                    continue
                if d is not None and any(x.k == "DeclRefExpr" and x.get("d") in tainted for x in r.walk()) and r.t is not None and r.t.k == "int" and not any(a.k in ("ArraySubscriptExpr",) for a in r.walk()):
                    tainted.add(d)
        sz = sizes_of(f)
        # variables that never become negative: unsigned or counted up from a constant
        neg_ok = set()
        for d in tainted:
            if d in f.vardecls or True:
                asg = []
                for n in f.walk():
                    if n.k == "BinaryOperator" and n.op == "=" and varid(n.c[0]) == d:
                        asg.append(n.c[1])
                    elif n.k in ("CompoundAssignOperator",) and varid(n.c[0]) == d:
                        asg.append(None)
                    elif n.k == "UnaryOperator" and n.op == "--" and varid(n.c[0]) == d:
                        asg.append(None)
                if d in f.varinit and f.varinit[d] is not None:
                    asg.append(f.varinit[d])
                t = next((x.t for x in f.walk() if x.k == "DeclRefExpr" and x.get("d") == d), None)
                if t is not None and t.sg is False:
                    neg_ok.add(d)
                elif d not in src and asg and all(a is not None and (cval(a) is not None and cval(a) >= 0) for a in asg):
                    neg_ok.add(d)
        eq = {}
        for n in f.walk():
            if n.k == "BinaryOperator" and n.op == "=" and varid(n.c[0]) is not None and varid(n.c[1]) is not None:
                eq.setdefault(varid(n.c[0]), set()).add(varid(n.c[1]))
                eq.setdefault(varid(n.c[1]), set()).add(varid(n.c[0]))
        bad = {}
        good = set()

        def same(a, b):
            if a == b:
                return True
            return a[0] == "v" and b[0] == "v" and b[1] in eq.get(a[1], ())

        def term(n):
            c = cval(n)
            if c is not None:
                return ("c", c)
            x = inner(n)
            if x.k == "DeclRefExpr":
                return ("v", x.get("d"))
            if x.k == "CXXMemberCallExpr" and x.cn == "size" and obj(x) is not None:
                o = obj(x).strip()
                return ("size", ("v", o.get("d")) if o.k == "DeclRefExpr" else ("m", o.src()))
            return ("e", x.src())

        def limits(base):
            """expressions known to be the length of base"""
            b = inner(base)
            if b.t is not None and b.t.k == "arr" and b.t.n is not None:
                return [("c", b.t.n)]
            m = re.match(r".*array<.*,\s*(\d+)>", b.t.cs or "") if b.t is not None else None
            if m:
                return [("c", int(m.group(1)))]
            k = ("v", b.get("d")) if b.k == "DeclRefExpr" else ("m", b.src())
            return [("size", k)] + [term(x) for x in sz.get(k, [])]

        def check_index(n, base, idx, s):
            x = inner(idx)
            if x.k != "DeclRefExpr" or x.get("d") not in tainted:
                return
            d = x.get("d")
            lim = limits(base)
            if not lim:
                return
            up = any(fact[0] == d and fact[1] == "<" and (any(same(fact[2], l) for l in lim) or fact[2][0] == "c" and any(l[0] == "c" and fact[2][1] <= l[1] for l in lim)) for fact in s)
            if not up and bounded_by_max(d, base):
                up = True
            lo = d in neg_ok or any(fact[0] == d and fact[1] == ">=" and fact[2][0] == "c" and fact[2][1] >= 0 for fact in s)
            if up and lo:
                good.add((n.l, base.src()[:40]))
            else:
                bad.setdefault(("index", base.src()[:60], x.get("n")), n)

        def bounded_by_max(d, base):
            """the container was sized by the maximum of the container the index comes from"""
            init = f.varinit.get(d)
            if init is None:
                return False
            from_ = {x.get("d") for x in init.walk() if x.k == "DeclRefExpr" and x.get("d") in cont}
            b = inner(base)
            k = ("v", b.get("d")) if b.k == "DeclRefExpr" else ("m", b.src())
            for e in sz.get(k, []):
                x = inner(e)
                y = f.varinit.get(x.get("d")) if x.k == "DeclRefExpr" else x
                if y is None:
                    continue
                z = inner(y)
                if z.k == "BinaryOperator" and z.op == "+" and (cval(z.c[1]) or 0) >= 1 and any(c.is_call and c.cn == "max_element" for c in z.walk()) and any(c.k == "DeclRefExpr" and c.get("d") in from_ for c in z.walk()):
                    return True
            return False

        def step(n, s):
            if isinstance(n, tuple):
                s2 = frozenset(x for x in s if x[0] != n[1] and x[2] != ("v", n[1]))
                return s2
            if n.k == "ArraySubscriptExpr":
                check_index(n, n.c[0], n.c[1], s)
            elif n.k == "CXXOperatorCallExpr" and n.op == "[]" and len(n.args) == 2:
                check_index(n, n.args[0], n.args[1], s)
            elif n.k == "CXXConstructExpr" and n.args and n.t is not None and ("vector" in n.t.s or "unordered" in n.t.s):
                x = inner(n.args[0])
                if x.k == "DeclRefExpr" and x.get("d") in tainted and x.get("d") not in neg_ok:
                    d = x.get("d")
                    al = {d} | eq.get(d, set())
                    if any(fact[0] in al and fact[1] == ">=" and fact[2][0] == "c" and fact[2][1] >= 0 for fact in s):
                        good.add((n.l, "size"))
                    else:
                        bad.setdefault(("size", x.get("n"), ""), n)
            ws = set()
            if n.k in ("BinaryOperator", "CompoundAssignOperator") and n.op.endswith("=") and n.op not in ("==", "!=", "<=", ">="):
                if n.c[0].strip().k == "DeclRefExpr":
                    ws.add(varid(n.c[0]))
            elif n.k == "UnaryOperator" and n.op in ("++", "--"):
                ws.add(varid(n.c[0]))
            elif n.is_call and n.cn in SCANF:
                ws |= {base_var(a) for a in n.args[SCANF[n.cn] + 1:]}
            elif extraction(n):
                ws.add(base_var(n.args[1]))
            ws.discard(None)
            if ws:
                s = frozenset(x for x in s if x[0] not in ws and not (x[2][0] == "v" and x[2][1] in ws))
            return s

        def edge(c, v, s):
            c = c.strip()
            if c.k != "BinaryOperator" or c.op not in ("<", ">", "<=", ">=", "==", "!="):
                # canonical form of a comparison with zero
                p = c.parent
                while p is not None and p.k in CASTS:
                    p = p.parent
                d = varid(c)
                if d in tainted and p is not None and p.k == "BinaryOperator" and p.op in ("<=", ">") and cval(p.c[1]) == 0:
                    if v:
                        s = s | {(d, ">=", ("c", 1))}
                return s
            t = actual(c, v)
            l, r, op = c.c[0], c.c[1], c.op
            out = set()
            for a, b, o in ((l, r, op), (r, l, {"<": ">", ">": "<", "<=": ">=", ">=": "<="}.get(op, op))):
                d = inner(a).get("d") if inner(a).k == "DeclRefExpr" else None
                if d not in tainted:
                    continue
                if o == "<" and t or o == ">=" and not t:
                    out.add((d, "<", term(b)))
                elif (o == "<=" and t or o == ">" and not t) and cval(b) is not None:
                    out.add((d, "<", ("c", cval(b) + 1)))
                elif o == "==" and t and cval(b) is not None:
                    out.add((d, "<", ("c", cval(b) + 1))); out.add((d, ">=", ("c", cval(b))))
                if (o == ">=" and t or o == "<" and not t) and cval(b) is not None:
                    out.add((d, ">=", ("c", cval(b))))
                elif (o == ">" and t or o == "<=" and not t) and cval(b) is not None:
                    out.add((d, ">=", ("c", cval(b) + 1)))
            return s | out if out else s
        try:
            explore(f, frozenset(), by_decl(f, step), edge, only=lambda k: False, limit=60000)
        except TooMany:
            rep.note("too many paths: %s" % f.n)
            continue
        for (what, a, b), n in bad.items():
            if what == "index":
                rep.bad("bounds:%s:%s" % (f.n, a), "%s indexes '%s' with '%s', which is controlled by a file, without comparing it with the size" % (f.n, a, b), n.where)
            else:
                rep.bad("size:%s:%s" % (f.n, a), "%s sizes a container with '%s', which is read from a file and may be negative" % (f.n, a), n.where)
        for g in good:
            rep.ok("index or size from a file within bounds", "%s:%d %s" % (f.n, g[0], g[1]))
    rep.need("index or size from a file within bounds", 3)


# ---- every step of a reader is carried out and its failure is reported

def reader(f):
    """a function that reads from a file and says whether it succeeded"""
    if f.ret is None or not (f.ret.k == "bool" or "optional<" in f.ret.s):
        return False
    for i in range(len(f.params)):
        t = f.ptype(i)
        if t is not None and re.search(r"\bFILE\b|istream|t8_path|filesystem::path", t.s):
            return True
    return "reader" in (f.qn if hasattr(f, "qn") else f.n) and f.ret.k == "bool" and not f.params


def failing(n):
    x = inner(n)
    if x.k == "CXXBoolLiteralExpr":
        return cval(x) == 0
    if is_null(x):
        return True
    return any(y.k == "DeclRefExpr" and y.get("n") == "nullopt" for y in n.walk())


def run_steps(P, rep):
    R = {f.key for f in P.all if f.body is not None and not f.tmpl and reader(f)}
    for f in P.all:
        if f.tmpl or f.body is None or f.cfg is None:
            continue
        calls = [n for n in f.calls() if any(g.key in R for g in P.resolve(n))]
        if not calls:
            continue
        ids = {n.i: n for n in calls}
        # steps at the top level of the function
        top = set()
        for n in calls:
            if not any(a.k in ("ForStmt", "WhileStmt", "DoStmt", "SwitchStmt", "CXXForRangeStmt") or a.k == "IfStmt" and not any(x is n for x in a.c[2].walk()) for a in n.ancestors()):
                top.add(n.i)
        bad = {}

        def val(n, st):
            x = inner(n)
            if x.i in ids:
                return (False, x.i)
            if x.k == "CXXConstructExpr" and len(x.args) == 1:
                return val(x.args[0], st)
            if x.k == "CXXBoolLiteralExpr":
                return bool(cval(x))
            c = cval(x)
            if c is not None:
                return bool(c)
            if failing(n):
                return False
            if x.k == "DeclRefExpr":
                return st.get(x.get("d"))
            if x.k == "UnaryOperator" and x.op == "!":
                v = val(x.c[0], st)
                return v if v is None else (not v if isinstance(v, bool) else (not v[0], v[1]))
            if x.k == "BinaryOperator" and x.op in ("||", "&&"):
                a = val(x.c[0], st)
                if isinstance(a, tuple):
                    a = st.get(("out", a[1]))
                    if a is not None and isinstance(val(x.c[0], st), tuple):
                        a = a != val(x.c[0], st)[0]
                cut = x.op == "||"
                if a is cut:
                    return cut
                if a is (not cut):
                    return val(x.c[1], st)
            return None

        def step(n, s):
            st = dict(s)
            if isinstance(n, tuple):
                v = val(n[2], st)
                st[n[1]] = v
                return frozenset(st.items())
            if n.k == "DeclStmt":
                for v in n.d["decls"]:
                    if f.varinit.get(v["id"]) is not None:
                        st[v["id"]] = val(f.varinit[v["id"]], st)
                return frozenset(st.items())
            if n.i in ids:
                st[("ran", n.i)] = True
                st.pop(("out", n.i), None)
                p = n.parent
                while p is not None and (p.k in CASTS or p.k == "ExprWithCleanups"):
                    p = p.parent
                if p is not None and p.k in ("CompoundStmt",):
                    bad.setdefault((n.cn, "ignored"), n)
                return frozenset(st.items())
            if n.k == "BinaryOperator" and n.op == "=" and n.c[0].strip().k == "DeclRefExpr":
                st[varid(n.c[0])] = val(n.c[1], st)
                return frozenset(st.items())
            if n.k == "CompoundAssignOperator" and varid(n.c[0]) is not None and n.op in ("|=", "&="):
                d = varid(n.c[0])
                a = st.get(d); b = val(n.c[1], st)
                cut = n.op == "|="
                st[d] = cut if a is cut or b is cut else (b if a is (not cut) else (a if b is (not cut) else ("and", a, b)))
                if isinstance(st[d], tuple) and st[d][0] == "and":
                    st[d] = None
                return frozenset(st.items())
            if n.k == "CXXOperatorCallExpr" and n.op == "=" and len(n.args) == 2 and n.args[0].strip().k == "DeclRefExpr":
                st[varid(n.args[0])] = val(n.args[1], st)
                return frozenset(st.items())
            if n.k == "ReturnStmt":
                e = n.kids[0] if n.kids else None
                if e is None:
                    return s
                v = val(e, st)
                if failing(e) or v is False:
                    return None
                for k, x in st.items():
                    if isinstance(k, tuple) and k[0] == "ran":
                        if v == (False, k[1]):
                            continue
                        o = st.get(("out", k[1]))
                        if o is not True:
                            bad.setdefault((ids[k[1]].cn, "failed" if o is False else "untested"), n)
                for i in top:
                    if ("ran", i) not in st and v is not False:
                        bad.setdefault((ids[i].cn, "skipped"), n)
                return None
            return s

        def edge(c, v, s):
            st = dict(s)
            x = c.strip()
            if x.k == "CXXMemberCallExpr" and x.cn in ("operator bool", "has_value") and obj(x) is not None:
                x = obj(x).strip()
            elif x.k == "ImplicitCastExpr":
                x = inner(x)
                if x.k == "CXXMemberCallExpr" and obj(x) is not None:
                    x = obj(x).strip()
            if x.i in ids:
                st[("out", x.i)] = v
                return frozenset(st.items())
            if x.k == "DeclRefExpr" and x.get("d") in st:
                w = st[x.get("d")]
                if isinstance(w, bool):
                    return s if w == v else None
                if isinstance(w, tuple):
                    o = v != w[0]
                    if ("out", w[1]) in st and st[("out", w[1])] != o:
                        return None
                    st[("out", w[1])] = o
                    st[x.get("d")] = v
                    return frozenset(st.items())
                st[x.get("d")] = v
                return frozenset(st.items())
            return s

        def at_exit(s, trail):
            if f.ret is None or f.ret.s == "void":
                st = dict(s)
                for k in st:
                    if isinstance(k, tuple) and k[0] == "ran" and ("out", k[1]) not in st:
                        bad.setdefault((ids[k[1]].cn, "untested"), ids[k[1]])
        try:
            explore(f, frozenset(), by_decl(f, step), edge, at_exit, only=lambda k: False, limit=60000)
        except TooMany:
            rep.note("too many paths: %s" % f.n)
            continue
        for (name, why), n in bad.items():
            txt = {"ignored": "%s ignores whether %s succeeded", "failed": "%s reports success although %s failed", "untested": "%s may report success although %s failed",
                   "skipped": "%s may report success without having called %s"}[why] % (f.n, name)
            rep.bad("step:%s:%s" % (f.n, name), txt, n.where)
        if not bad:
            for n in calls:
                rep.ok("step of a reader carried out and its failure reported", "%s: %s" % (f.n, n.cn))
    rep.need("step of a reader carried out and its failure reported", 5)


def run_P16(P, rep):
    run_formats(P, rep)
    run_scans(P, rep)
    run_streams(P, rep)
    run_bounds(P, rep)
    run_steps(P, rep)
