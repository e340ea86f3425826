"""P04: what is packed is what is unpacked (fields, types, order) and the announced size is large enough"""
from ..lib import *
from ..report import NoAnswer

PACK, UNPACK, SIZE = "MPI_Pack", "MPI_Unpack", "MPI_Pack_size"


class Unknown(Exception):
    pass


def reaches(P, f, name, memo, depth=0):
    k = (f.key, name)
    if k in memo:
        return memo[k]
    memo[k] = False
    r = False
    for c in f.calls():
        if c.cn == name:
            r = True
            break
        if depth < 6:
            for g in P.resolve(c):
                if reaches(P, g, name, memo, depth + 1):
                    r = True
                    break
        if r:
            break
    memo[k] = r
    return r


class Tracer:
    def __init__(self, P, op):
        self.P = P; self.op = op; self.memo = {}

    def run(self, fn):
        return self.stmts(fn.body, Ctx(fn), 0)

    def has(self, n, ctx):
        """does the subtree contain an event?"""
        for x in n.walk():
            if x.is_call and self.event_call(x) is not None:
                return True
        return False

    def event_call(self, x):
        if x.cn == self.op:
            return "mpi"
        l = lambda_of(x)
        if l is not None and any(y.is_call and self.event_call(y) for y in l.kids[0].walk()):
            return "lambda"
        if x.k in ("CallExpr", "CXXMemberCallExpr", "CXXOperatorCallExpr"):
            w = {PACK: "pack", UNPACK: "unpack", SIZE: "size"}[self.op]
            if x.cn is None and x.c and x.c[0] is not None and x.c[0].k == "CXXDependentScopeMemberExpr" and x.c[0].get("n") == w:
                return "handler"
            if x.cn == w and "t8_data_handler<" in str(x.get("cq")):
                return "handler"
            if x.cn in {PACK: ("t8_element_MPI_Pack", "element_MPI_Pack"), UNPACK: ("t8_element_MPI_Unpack", "element_MPI_Unpack"),
                        SIZE: ("t8_element_MPI_Pack_size", "element_MPI_Pack_size")}[self.op]:
                return "element"
            for g in self.P.resolve(x):
                if reaches(self.P, g, self.op, self.memo):
                    return "inline"
        return None

    def stmts(self, n, ctx, depth):
        if depth > 60:
            raise Unknown("too deep")
        if n is None:
            return []
        if in_macro(n, "T8_ASSERT"):
            return []
        ev = []
        if n.k in LOOPS:
            if not self.has(n, ctx):
                return []
            cl = const_loop(n, ctx)
            body = n.c[-1]
            if n.k == "DoStmt":
                body = n.kids[0]
            if cl is not None:
                var, vals = cl
                for v in vals:
                    ctx.val[var] = v
                    ev += self.stmts(body, ctx, depth + 1)
                ctx.val.pop(var, None)
                return ev
            b = self.stmts(body, ctx, depth + 1)
            return [("loop", b)]
        if n.k in ("IfStmt", "ConditionalOperator", "SwitchStmt", "CXXTryStmt"):
            if not self.has(n, ctx):
                return []
            if n.k == "IfStmt":
                ks = [x for x in n.c if x is not None]
                pre = [self.stmts(x, ctx, depth + 1) for x in ks]
                branches = [(x, p) for x, p in zip(ks, pre)]
                # condition parts first (usually no events), then branches
                cond, rest = pre[0], pre[1:]
                ev += cond
                if any(in_macro(a, *OPAQUE_MACROS) for a in ks[:1]):
                    for r in rest:
                        ev += r
                    return ev
                return ev + [("if", rest)]
            if n.k == "ConditionalOperator":
                r = [self.stmts(x, ctx, depth + 1) for x in n.kids]
                if not any(r[1:]):
                    return r[0]
                return r[0] + [("if", r[1:])]
            raise Unknown("branch")
        if n.is_call:
            kind = self.event_call(n)
            if kind == "mpi":
                return [self.item(n, ctx)]
            if kind == "handler":
                return [("item", "handler", ("handler",), n)]
            if kind == "element":
                a = n.args[1:] if n.cn.startswith("t8_") else n.args
                c = ctx.value(a[2] if self.op == PACK else a[5])
                p = self.field(a[1] if self.op == PACK else a[4], ctx)
                return [("item", ("element", c), ("element",) + (p or ()), n)]
            if kind == "lambda":
                l = lambda_of(n)
                args = {}
                for p, a in zip(l.d.get("params", ()), n.args[1:]):
                    args[p["id"]] = (a, ctx)
                c2 = Ctx(ctx.fn, dict(ctx.args, **args), ctx, ctx.this)
                c2.val = ctx.val
                return self.stmts(l.kids[0], c2, depth + 1)
            if kind == "inline":
                gs = [g for g in self.P.resolve(n) if reaches(self.P, g, self.op, self.memo)]
                if len(gs) != 1:
                    return [("item", "dispatch", tuple(), n)]
                return self.stmts(gs[0].body, bind(gs[0], n, ctx), depth + 1)
            if n.cn in ("for_each", "accumulate") or (n.cn is None and n.k == "CallExpr"):
                lam = [x for a in n.args if a is not None for x in [a.strip()] for x in a.walk() if x.k == "LambdaExpr"]
                if lam:
                    b = []
                    for l in lam:
                        b += self.stmts(l.kids[0], ctx, depth + 1)
                    return [("loop", b)] if b else []
        if n.k == "LambdaExpr":
            return []
        for x in n.kids:
            ev += self.stmts(x, ctx, depth + 1)
        return ev

    def item(self, n, ctx):
        a = n.args
        buf, cnt, ty = (a[0], a[1], a[2]) if self.op == PACK else (a[3], a[4], a[5])
        t = self.mty(ty, ctx)
        c = ctx.value(cnt)
        p = self.field(buf, ctx)
        return ("item", (t, c), p, n)

    def mty(self, n, ctx):
        t = mpitype(n)
        if t is not None:
            return t
        d = varid(n)
        if d is not None and d in ctx.args:
            return self.mty(ctx.args[d][0], ctx.args[d][1])
        if d is not None and d in ctx.fn.varinit and not assigned(ctx.fn, d):
            return self.mty(ctx.fn.varinit[d], ctx)
        return None

    def field(self, buf, ctx):
        p = path(buf, ctx)
        if p and isinstance(p[0], tuple) and p[0][0] == "var":
            # a local temporary: the field it is copied from / to
            d = p[0][1]
            fn = ctx.fn if id(ctx.fn) == p[0][2] else None
            if fn is not None and len(p) == 1:
                c = set()
                if self.op == PACK:
                    srcs = [fn.varinit[d]] if d in fn.varinit else []
                    srcs += [w.c[1] for w in assigned(fn, d) if w.k == "BinaryOperator" and w.op == "="]
                    for s in srcs:
                        q = path(s, ctx)
                        if q and q[0] in (("this",), ("parm",)):
                            c.add(clean(q))
                        else:
                            for x in s.walk():
                                if x.k == "MemberExpr" and not x.t.s.endswith(")"):
                                    q = path(x, ctx)
                                    if q[0] in (("this",), ("parm",)):
                                        c.add(clean(q))
                                        break
                else:
                    for x in fn.walk():
                        if x.k == "BinaryOperator" and x.op == "=" and x.c[0].strip().k in ("MemberExpr", "ArraySubscriptExpr"):
                            if any(varid(y) == d for y in x.c[1].walk() if y.k == "DeclRefExpr"):
                                q = path(x.c[0], ctx)
                                if q[0] in (("this",), ("parm",)):
                                    c.add(clean(q))
                if len(c) == 1:
                    return list(c)[0]
            return None
        if not p or p[0] == ("?",):
            return None
        return clean(p)


def clean(p):
    q = [x for x in p if not isinstance(x, tuple)]
    while q and q[0].startswith("["):
        q = q[1:]
    return tuple(q)


def fmt(ev):
    out = []
    for e in ev:
        if e[0] == "item":
            out.append("%s:%s" % (".".join(e[2]) if e[2] else "?", "x".join(map(str, e[1])) if isinstance(e[1], tuple) else e[1]))
        elif e[0] == "loop":
            out.append("{" + fmt(e[1]) + "}*")
        else:
            out.append("if(" + " | ".join(fmt(b) for b in e[1]) + ")")
    return " ".join(out)


def expand(ev, P, rec):
    """items with a constant count become that many single items over consecutive fields"""
    out = []
    for e in ev:
        if e[0] == "item" and isinstance(e[1], tuple) and e[1][1] not in (None, 1) and 0 <= e[1][1] <= 64:
            for k in range(e[1][1]):
                out.append(("item", (e[1][0], 1), succ_field(e[2], k, P, rec), e[3]))
        elif e[0] == "loop":
            out.append(("loop", expand(e[1], P, rec)))
        elif e[0] == "if":
            out.append(("if", [expand(b, P, rec) for b in e[1]]))
        else:
            out.append(e)
    return out


def succ_field(p, k, P, rec):
    if p is None:
        return None
    if k == 0 and not (p and not p[-1].startswith("[")):
        return p
    if p and p[-1].startswith("[") and p[-1] != "[]":
        return p[:-1] + ("[%d]" % (int(p[-1][1:-1]) + k),)
    # scalar member: following members of the same record; array member: elements
    for r in P.records.values():
        names = [f["n"] for f in r["fields"]]
        if p and p[-1] in names and (rec is None or r["n"] == rec):
            f = r["fields"][names.index(p[-1])]
            t = r["_tu"].type(f["t"])
            if t is not None and t.k == "arr":
                return p + ("[%d]" % k,)
            i = names.index(p[-1]) + k
            return p[:-1] + (names[i],) if i < len(names) else None
    return None if k else p


def same(a, b, diffs):
    """compare two event lists"""
    if len(a) != len(b):
        diffs.append("%d items are packed but %d are unpacked: packed [%s], unpacked [%s]" % (len(a), len(b), fmt(a), fmt(b)))
        return
    for x, y in zip(a, b):
        if x[0] != y[0]:
            diffs.append("packed [%s] but unpacked [%s]" % (fmt([x]), fmt([y])))
        elif x[0] == "loop":
            same(x[1], y[1], diffs)
        elif x[0] == "if":
            if len(x[1]) != len(y[1]):
                diffs.append("branches differ: packed [%s], unpacked [%s]" % (fmt([x]), fmt([y])))
            else:
                for p, q in zip(x[1], y[1]):
                    same(p, q, diffs)
        else:
            if x[1] != y[1] and not (isinstance(x[1], tuple) and isinstance(y[1], tuple) and (None in x[1] or None in y[1])):
                diffs.append("packed as %s but unpacked as %s (%s)" % (x[1], y[1], ".".join(x[2] or ("?",))))
            if x[2] and y[2] and EQUIV.get(x[2], x[2]) != EQUIV.get(y[2], y[2]):
                diffs.append("field %s is packed where field %s is unpacked" % (".".join(x[2]), ".".join(y[2])))


# ---- size: linear forms over ('T', mpitype) -> coefficient
class Lin:
    """value of an int variable: {type: coefficient}, times the element count 'mul' times"""
    def __init__(self, d=None, n=None, mul=0):
        self.d = dict(d or {}); self.n = n; self.mul = mul


class SizeEval:
    def __init__(self, P):
        self.P = P; self.tr = Tracer(P, SIZE)

    def run(self, fn):
        env = {}
        ctx = Ctx(fn)
        self.out = None
        self.block(fn.body, env, ctx, 0)
        return self.out

    def block(self, n, env, ctx, depth):
        if n is None or depth > 40:
            return
        if in_macro(n, "T8_ASSERT"):
            return
        if n.k == "CompoundStmt":
            for x in n.kids:
                self.block(x, env, ctx, depth + 1)
            return
        if n.k == "DeclStmt":
            for v in n.d["decls"]:
                i = ctx.fn.varinit.get(v["id"])
                if i is not None:
                    env[v["id"]] = self.ev(i, env, ctx, depth)
            return
        if n.k == "ReturnStmt":
            if n.kids:
                self.out = self.ev(n.kids[0], env, ctx, depth)
            return
        if n.k in LOOPS:
            cl = const_loop(n, ctx)
            body = n.c[-1]
            if cl is None:
                if any(x.is_call and self.tr.event_call(x) for x in n.walk()) or any(x.k == "CompoundAssignOperator" for x in n.walk()):
                    raise Unknown("loop in size function")
                return
            for v in cl[1]:
                ctx.val[cl[0]] = v
                self.block(body, env, ctx, depth + 1)
            ctx.val.pop(cl[0], None)
            return
        if n.k == "IfStmt":
            ks = n.kids
            for x in ks[1:2]:
                self.block(x, env, ctx, depth + 1)   # the branch where there is something to pack
            return
        self.ev(n, env, ctx, depth)

    def key(self, n, ctx):
        """variable an lvalue denotes: local id, or ('out',) for *param"""
        n = n.strip()
        if n.k == "DeclRefExpr":
            d = n.get("d")
            if d in ctx.args:
                return self.key(ctx.args[d][0], ctx.args[d][1]) if ctx.args[d][0] is not None else None
            return d
        if n.k == "UnaryOperator" and n.op in ("*", "&"):
            return self.key(n.kids[0], ctx)
        return None

    def ev(self, n, env, ctx, depth):
        v = ctx.value(n)
        n = n.strip()
        if v is None:
            v = ctx.value(n)
        k = self.key(n, ctx) if n.k == "DeclRefExpr" else None
        if k in env and k is not None:
            return env[k]
        if v is not None:
            return Lin({1: v})
        if n.k in ("BinaryOperator", "CompoundAssignOperator"):
            if n.op == "=":
                r = self.ev(n.c[1], env, ctx, depth)
                k = self.key(n.c[0], ctx)
                env[k] = r
                self.maybe_out(n.c[0], r, ctx)
                return r
            if n.op in ("+=", "*="):
                k = self.key(n.c[0], ctx)
                r = self.arith(n.op[0], env.get(k) or self.ev(n.c[0], env, ctx, depth), self.ev(n.c[1], env, ctx, depth))
                env[k] = r
                self.maybe_out(n.c[0], r, ctx)
                return r
            if n.op in ("+", "*"):
                return self.arith(n.op, self.ev(n.c[0], env, ctx, depth), self.ev(n.c[1], env, ctx, depth))
            for x in n.kids:
                self.ev(x, env, ctx, depth)
            return None
        if n.k in ("DeclRefExpr", "UnaryOperator"):
            k = self.key(n, ctx)
            if k in env:
                return env[k]
            r = declref(n)
            if r is not None and r.get("dk") == "parm" and ctx.up is None:
                return Lin({"count": 1})
            if r is not None and r.get("d") in ctx.args:
                return self.ev(ctx.args[r.get("d")][0], env, ctx.args[r.get("d")][1], depth)
            return None
        if n.k == "ConditionalOperator":
            self.ev(n.c[0], env, ctx, depth)
            return None
        if n.is_call:
            if n.cn == SIZE:
                t = self.tr.mty(n.args[1], ctx)
                c = ctx.value(n.args[0])
                if t is None or c is None:
                    raise Unknown("size of unknown type")
                env[self.key(n.args[3], ctx)] = Lin({t: c})
                return None
            kind = self.tr.event_call(n)
            if kind == "handler":
                return Lin({"handler": 1})
            if kind == "element":
                c = ctx.value(n.args[2] if n.cn.startswith("t8_") else n.args[1])
                if c is None:
                    raise Unknown("count")
                env[self.key(n.args[-1], ctx)] = Lin({"element": c})
                return None
            if kind == "lambda":
                l = lambda_of(n)
                args = {p["id"]: (a, ctx) for p, a in zip(l.d.get("params", ()), n.args[1:])}
                c2 = Ctx(ctx.fn, dict(ctx.args, **args), ctx, ctx.this)
                o = self.out
                self.block(l.kids[0], env, c2, depth + 1)
                r, self.out = self.out, o
                return r
            if kind == "inline":
                gs = [g for g in self.P.resolve(n) if reaches(self.P, g, SIZE, self.tr.memo)]
                if len(gs) != 1:
                    raise Unknown("dispatch")
                c2 = bind(gs[0], n, ctx)
                o = self.out
                self.block(gs[0].body, env, c2, depth + 1)
                r, self.out = self.out, o
                if gs[0].ret is not None and gs[0].ret.s == "void":
                    self.out = self._outkeep(o)
                return r
            if n.cn == "accumulate":
                for a in n.args:
                    for x in a.walk():
                        if x.is_call and self.tr.event_call(x) == "handler":
                            return Lin({"handler": 1})
            if n.cn is None:
                for a in n.kids:
                    for x in a.walk():
                        if x.is_call and x is not n and self.tr.event_call(x) == "handler":
                            return Lin({"handler": 1})
            return None
        return None

    def _outkeep(self, o):
        return getattr(self, "_final", o)

    def maybe_out(self, lhs, r, ctx):
        l = lhs.strip()
        if l.k == "UnaryOperator" and l.op == "*":
            # *pack_size of the outermost function (possibly through inlining)
            c = ctx; n = l.kids[0].strip()
            while n.k == "DeclRefExpr" and n.get("d") in c.args and c.args[n.get("d")][0] is not None:
                n, c = c.args[n.get("d")]
                n = n.strip()
            if n.k == "DeclRefExpr" and n.get("dk") == "parm" and c.up is None:
                self.out = r
                self._final = r

    def arith(self, op, a, b):
        if a is None or b is None:
            return None
        if op == "+":
            d = dict(a.d)
            if a.mul != b.mul and not (set(a.d) <= {1} and a.d.get(1, 0) == 0) and not (set(b.d) <= {1} and b.d.get(1, 0) == 0):
                return None
            for k, v in b.d.items():
                d[k] = d.get(k, 0) + v
            return Lin(d, mul=max(a.mul, b.mul))
        for x, y in ((a, b), (b, a)):
            if set(x.d) <= {1}:
                return Lin({k: v * x.d.get(1, 0) for k, v in y.d.items()}, mul=y.mul + x.mul)
            if set(x.d) == {"count"} and x.d["count"] == 1:
                return Lin(y.d, mul=y.mul + x.mul + 1)
        return None


def tally(ev, inloop=0):
    """{(type, loopdepth): count}"""
    d = {}
    for e in ev:
        if e[0] == "item":
            t, c = e[1] if isinstance(e[1], tuple) else (e[1], 1)
            if t is None or c is None:
                raise Unknown("item")
            d[(t, inloop)] = d.get((t, inloop), 0) + c
        elif e[0] == "loop":
            for k, v in tally(e[1], inloop + 1).items():
                d[k] = d.get(k, 0) + v
        else:
            m = {}
            for b in e[1]:
                for k, v in tally(b, inloop).items():
                    m[k] = max(m.get(k, 0), v)
            for k, v in m.items():
                d[k] = d.get(k, 0) + v
    return d


def flat(ev):
    for e in ev:
        if e[0] == "item":
            yield e
        elif e[0] == "loop":
            yield from flat(e[1])
        else:
            for b in e[1]:
                yield from flat(b)


# members that hold the same value in every valid object (documented invariant of the prism: both factors have its level)
EQUIV = {("line", "level"): ("prism-level",), ("tri", "level"): ("prism-level",)}
# data a message class exists to carry
REQUIRED = {"t8_forest_pfc_message": [("itree",), ("eclass",), ("num_siblings",), ("element",)]}
IGNORED_FIELDS = {"pad8", "pad16", "p"}


def element_record(fn):
    """record type the element pointers are cast to in this function"""
    for n in fn.walk():
        if n.k == "MemberExpr" and n.get("arrow"):
            yield n.get("rec")


def run_P04(P, rep):
    memo = {}
    groups = {}
    for f in P.all:
        if f.body is None:
            continue
        if f.tmpl and any(g.inst and g.n == f.n and g.file == f.file and g.l == f.l for g in P.byname[f.n]):
            continue
        names = {c.cn for c in f.calls()}
        low = f.n.lower()
        if "pack" not in low and "buffer_size" not in low:
            continue
        kind = "unpack" if "unpack" in low else ("size" if "size" in low else "pack")
        op = {"pack": PACK, "unpack": UNPACK, "size": SIZE}[kind]
        if op not in names and not reaches(P, f, op, memo):
            # an element without data still counts
            if not (f.cls and f.n.startswith("element_MPI_")):
                continue
        if f.cls == "t8_scheme" or (f.cls is None and f.n.startswith("t8_element_MPI")):
            continue
        g = f.qn.rsplit("::", 1)[0] if "::" in f.qn else f.n.split("_pack")[0].split("_unpack")[0]
        groups.setdefault(g, {}).setdefault(kind, f)
    for g, m in sorted(groups.items()):
        if "pack" not in m or "unpack" not in m:
            rep.note("%s: no pack/unpack pair (%s)" % (g, sorted(m)))
            continue
        where = m["unpack"].where
        try:
            a = Tracer(P, PACK).run(m["pack"])
            b = Tracer(P, UNPACK).run(m["unpack"])
        except Unknown as e:
            rep.note("%s: message format not derivable (%s)" % (g, e))
            continue
        rec = next((r for r in element_record(m["pack"])), None)
        a, b = expand(a, P, rec), expand(b, P, rec)
        diffs = []
        same(a, b, diffs)
        rep.ok("pack/unpack pairs", "%s: %s" % (g, fmt(a)))
        for x in diffs:
            rep.bad("%s: %s" % (g, x), "%s: what is unpacked is not what was packed: %s" % (g, x), where)
        rep.ok("packed items", n=len(list(flat(a))))
        # coverage of the element's data
        got = [e for e in flat(b)]
        unpacked = {e[2] for e in got if e[2]}
        if all(e[2] for e in got):
            if m["unpack"].n.startswith("element_MPI"):
                need = [f for f in leaf_fields(P, rec) if not set(f) & IGNORED_FIELDS] if rec else []
            else:
                need = REQUIRED.get(g, [])
            for fld in need:
                rep.ok("data members")
                if fld in unpacked or any(p[:len(fld)] == fld for p in unpacked):
                    continue
                if derived(m["unpack"], fld) or in_empty_loop(m["unpack"], fld):
                    continue
                rep.bad("%s.%s not transported" % (g, ".".join(fld)), "%s: member %s is neither unpacked nor rebuilt on the receiving side" % (g, ".".join(fld)), m["unpack"].where)
        if "size" in m:
            try:
                lin = SizeEval(P).run(m["size"])
                tl = tally(a)
            except Unknown as e:
                rep.note("%s: size not derivable (%s)" % (g, e))
                continue
            if lin is None:
                rep.note("%s: size not derivable" % g)
                continue
            rep.ok("size functions", "%s: %s (times count: %s)" % (g, lin.d, lin.mul))
            per = any(k[1] for k in tl)
            if per and lin.mul < 1 and "handler" not in lin.d:
                rep.bad("%s size not scaled" % g, "%s: the pack size does not grow with the number of elements" % g, m["size"].where)
            for (t, dep), c in tl.items():
                if lin.d.get(t, 0) < c:
                    rep.bad("%s size of %s" % (g, t), "%s: %d item(s) of MPI type %s are packed but the announced size has room for %d" % (g, c, t, lin.d.get(t, 0)), m["size"].where)
    rep.need("pack/unpack pairs", 6)
    from . import wire_bytes
    wire_bytes.run(P, rep)


def leaf_fields(P, rec, pre=()):
    r = P.records.get(rec)
    if r is None:
        return
    for f in r["fields"]:
        t = r["_tu"].type(f["t"])
        if t is not None and t.k == "rec" and t.rec in P.records and P.records[t.rec]["fields"]:
            yield from leaf_fields(P, t.rec, pre + (f["n"],))
        else:
            yield pre + (f["n"],)


def derived(fn, fld):
    ctx = Ctx(fn)
    for n in fn.walk():
        if n.k == "BinaryOperator" and n.op == "=":
            if clean(path(n.c[0], ctx)) == fld:
                return True
    return False


def in_empty_loop(fn, fld):
    """the member is only handled in a loop that runs zero times for this class (a zero-dimensional element)"""
    for n in fn.walk():
        if n.k == "MemberExpr" and n.get("n") == fld[-1]:
            for a in n.ancestors():
                if a.k == "ForStmt":
                    c = const_loop(a, Ctx(fn))
                    if c is not None and not c[1]:
                        return True
    return False
