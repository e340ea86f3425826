"""Path exploration with correlated conditions: two tests of the same (unchanged) condition on one path go the same way."""
from .lib import varid, cval
from .model import CASTS


def is_null(n):
    s = n.strip()
    return s.k in ("GNUNullExpr", "CXXNullPtrLiteralExpr") or cval(n) == 0


def canon(n):
    """(key, polarity, frozenset of variable ids, set of member renders) of a condition, or None"""
    pol = True
    while True:
        if n.k in CASTS and n.kids:
            n = n.kids[0] if n.k != "CXXFunctionalCastExpr" else n.kids[-1]
            continue
        if n.k == "CXXRewrittenBinaryOperator" and len(n.kids) == 1:
            n = n.kids[0]
            continue
        if n.k == "UnaryOperator" and n.op == "!":
            pol = not pol
            n = n.c[0]
            continue
        if n.k == "BinaryOperator" and n.op in ("&&", "||"):
            n = n.c[1]
            continue
        if n.k == "BinaryOperator" and n.op in ("==", "!=") and is_null(n.c[1]) and n.c[0] is not None:
            if n.op == "==":
                pol = not pol
            n = n.c[0]
            continue
        if n.k == "BinaryOperator" and n.op in ("==", "!=") and is_null(n.c[0]):
            if n.op == "==":
                pol = not pol
            n = n.c[1]
            continue
        if n.k == "BinaryOperator" and n.op == ">" and cval(n.c[1]) == 0:
            n = n.c[0]            # counts: 'n > 0' and 'n != 0' are the same test
            continue
        if n.k == "BinaryOperator" and n.op == "<=" and cval(n.c[1]) == 0:
            pol = not pol
            n = n.c[0]
            continue
        if n.k == "CallExpr" and n.cn in ("__builtin_expect", "likely", "unlikely"):
            n = n.args[0]
            continue
        break
    op = None
    if n.k == "BinaryOperator" and n.op in ("==", "!=", "<", ">", "<=", ">="):
        a, b, op = n.c[0].src(), n.c[1].src(), n.op
        if op in (">", "<="):
            a, b = b, a
            op = {">": "<", "<=": ">="}[op]
        if op in ("!=", ">="):
            pol = not pol
            op = {"!=": "==", ">=": "<"}[op]
        if op == "==" and a > b:
            a, b = b, a
        key = "%s %s %s" % (a, op, b)
    else:
        key = n.src()
    vs = set(); mem = set(); once = False
    for x in n.walk():
        if x.k == "DeclRefExpr" and x.get("dk") in ("local", "parm"):
            vs.add(x.get("d"))
        elif x.k == "MemberExpr":
            mem.add(x.src())
        elif x.is_call and x.cn in VOLATILE or x.k in ("UnaryOperator",) and x.op in ("++", "--") or x.k == "BinaryOperator" and x.op == "=":
            once = True
    if once:
        key += " @%d" % n.i       # evaluated anew each time: equal to no other test
    if vs:
        key += " #" + ",".join(map(str, sorted(vs, key=str)))
    return key, pol, frozenset(vs), frozenset(mem), n


VOLATILE = {"fscanf", "sscanf", "fgets", "getline", "fread", "fwrite", "rand", "MPI_Wtime", "fgetc", "strtok", "feof", "t8_cmesh_msh_read_next_line"}


def writes(n):
    """(variable ids, member renders) this node may change"""
    vs = set(); mem = set()
    t = None
    if n.k in ("BinaryOperator", "CompoundAssignOperator") and n.op.endswith("=") and n.op not in ("==", "<=", ">=", "!="):
        t = n.c[0]
    elif n.k == "UnaryOperator" and n.op in ("++", "--"):
        t = n.c[0]
    elif n.k == "DeclStmt":
        for v in n.d["decls"]:
            vs.add(v["id"])
    elif n.is_call:
        for a in n.args:
            if a is None:
                continue
            s = a.strip()
            if s.k == "UnaryOperator" and s.op == "&":
                d = varid(s.c[0])
                if d is not None:
                    vs.add(d)
                elif s.c[0].strip().k == "MemberExpr":
                    mem.add(s.c[0].strip().src())
            else:
                # passed by reference
                d = varid(a)
                if d is not None and s.get("lv", False) and a.k == "DeclRefExpr":
                    vs.add(d)
    if t is not None:
        d = varid(t)
        if d is not None:
            vs.add(d)
        else:
            mem.add(t.strip().src())
    return vs, mem


class TooMany(Exception):
    pass


def explore(fn, init, step, edge=None, at_exit=None, limit=40000, only=None, rekey=None):
    """Depth first over (block, state, assumptions). step(node, state) -> state (None ends the path).
    edge(condition node, truth, state) -> state (None: infeasible). at_exit(state, trail) at function exit.
    Conditions are correlated if they occur at least twice in the function; only(key) restricts the correlated ones, rekey(canonical)
    may give conditions that are known to be equivalent the same key."""
    g = fn.cfg
    if g is None:
        return False
    # conditions per block
    conds = {}
    cnt = {}
    for b in g.b.values():
        if b.cond is None or b.cond not in fn.nodes or len(b.succ) != 2:
            continue
        t = fn.nodes.get(b.term)
        if t is not None and t.k == "SwitchStmt":
            continue
        c = canon(fn.nodes[b.cond])
        if c is not None and rekey is not None:
            c = rekey(c)
        raw = fn.nodes[b.cond]
        more = {}
        for tr in (True, False):
            more[tr] = []
            for x, v in implied(fn, raw, tr):
                y = x if rekey is None else rekey(x)
                more[tr].append((y, v if y[1] == x[1] else not v))
        ors = {}
        for tr in (True, False):
            ors[tr] = []
            for cl in clauses(fn, raw, tr):
                o = []
                for x, v in cl:
                    y = x if rekey is None else rekey(x)
                    o.append((y, v if y[1] == x[1] else not v))
                ors[tr].append(o)
        conds[b.id] = (c, raw, more, ors)
        ks = {x[0] for l in more.values() for x, v in l} | {x[0] for l in ors.values() for cl in l for x, v in cl}
        if c is not None:
            ks.add(c[0])
        for k in ks:
            cnt[k] = cnt.get(k, 0) + 1
    inter = {k for k, v in cnt.items() if v > 1}
    if only is not None:
        inter = {k for k in inter if only(k)}
    vars_of = {}
    for c, raw, more, ors in conds.values():
        for x in [c] + [x for l in more.values() for x, v in l] + [x for l in ors.values() for cl in l for x, v in cl]:
            if x is not None and x[0] in inter:
                vars_of[x[0]] = (x[2], x[3])
    # short-circuit operators whose value is used further up (negated, assigned): remember the value of an operator that was cut short
    logic = {}
    final = {}
    for b in g.b.values():
        t = fn.nodes.get(b.term) if b.term is not None else None
        if t is None:
            continue
        if t.k == "BinaryOperator" and t.op in ("&&", "||"):
            logic[b.id] = t
        elif b.cond in fn.nodes and len(b.succ) == 2 and t.k != "SwitchStmt":
            final[b.id] = fn.nodes[b.cond]

    def logval(n, known):
        """value of a condition from the operators cut short, or None"""
        x = n
        while x.k in CASTS and x.kids:
            x = x.kids[0]
        if (x.i, True) in known:
            return True
        if (x.i, False) in known:
            return False
        if x.k == "UnaryOperator" and x.op == "!":
            v = logval(x.c[0], known)
            return None if v is None else not v
        if x.k == "BinaryOperator" and x.op in ("&&", "||"):
            a = logval(x.c[0], known)
            cut = x.op == "||"
            if a is cut:
                return cut
            if a is not None:
                return logval(x.c[1], known)
        return None
    st = [(g.entry, init, frozenset(), (), frozenset())]
    seen = set()
    steps = 0
    while st:
        b, s, asm, trail, logs = st.pop()
        k = (b, s, asm, logs)
        if k in seen:
            continue
        seen.add(k)
        steps += 1
        if steps > limit:
            raise TooMany()
        B = g.b[b]
        dead = False
        for x in B.s:
            n = fn.nodes.get(x) if x >= 0 else None
            if n is None:
                if x < 0:
                    asm = frozenset(a for a in asm if -x not in vars_of[a[0]][0]) if asm else asm
                    # a declaration out of a group: find its node
                    vd = fn.vardecls.get(-x)
                    if vd is not None and -x in fn.varinit:
                        s = step(("decl", -x, fn.varinit[-x]), s)
                        if s is None:
                            dead = True
                            break
                continue
            s = step(n, s)
            if s is None:
                dead = True
                break
            if asm:
                vs, mem = writes(n)
                if vs or mem:
                    asm = frozenset(a for a in asm if not (vs & vars_of[a[0]][0]) and not (mem & vars_of[a[0]][1]))
        if dead or B.noret:
            continue
        if b == g.exit:
            if at_exit is not None:
                at_exit(s, trail)
            continue
        c = conds.get(b)
        lv_ = None
        if b in final and logs:
            lv_ = logval(final[b], logs)
        elif b in logic and logs:
            lv_ = logval(logic[b].c[0], logs)
        for j, t in enumerate(B.succ):
            if t is None:
                continue
            if lv_ is not None and len(B.succ) == 2 and lv_ != (j == 0):
                continue
            s2, a2, l2 = s, asm, logs
            if b in logic:
                cut = logic[b].op == "||"
                if (j == 0) == cut:
                    l2 = logs | {(logic[b].i, cut)}
            elif b in final:
                l2 = frozenset()
            if c is not None and lv_ is None:
                truth = j == 0
                cc, raw, more, ors = c
                facts = ([(cc, truth == cc[1])] if cc is not None else []) + more[truth]
                for cl in ors[truth]:
                    # one of these holds; if all others are known not to, the last one does
                    if not any((ck[0], v) in a2 for ck, v in cl):
                        open_ = [(ck, v) for ck, v in cl if (ck[0], not v) not in a2]
                        if not open_:
                            s2 = None
                        elif len(open_) == 1:
                            facts = facts + open_
                if s2 is None:
                    continue
                for ck, v in facts:
                    if ck[0] in inter:
                        if (ck[0], not v) in a2:
                            s2 = None
                            break
                        a2 = a2 | {(ck[0], v)}
                    if edge is not None:
                        s2 = edge(ck[4], v, s2)
                        if s2 is None:
                            break
                if s2 is None:
                    continue
            T = g.b[t]
            ln = next((fn.nodes[x].l for x in T.s if x in fn.nodes), 0)
            tr = trail if len(trail) > 40 or not ln or (trail and trail[-1] == ln) else trail + (ln,)
            st.append((t, s2, a2, tr, l2))
    return True


def is_flag(n):
    n = n.strip()
    while n.k in CASTS and n.kids:
        n = n.kids[-1].strip()
    return n.k == "BinaryOperator" and n.op in ("==", "!=", "<", ">", "<=", ">=", "&&", "||") or n.k == "UnaryOperator" and n.op == "!" \
        or n.k == "CXXRewrittenBinaryOperator" or n.k == "CXXOperatorCallExpr" and n.op in ("==", "!=") or n.is_call


def flags(fn):
    """variables that name a condition: initialised with it and never written again -> (condition, line)"""
    c = getattr(fn, "_flags", None)
    if c is not None:
        return c
    out = {}
    for v, init in fn.varinit.items():
        if init is not None and init.t is not None and (init.t.k in ("int", "bool") and is_flag(init) or init.t.k == "bool"):
            out[v] = init
    if out:
        for n in fn.walk():
            if n.k != "DeclStmt":
                for d in writes(n)[0]:
                    out.pop(d, None)
    fn._flags = out
    return out


def unflag(fn, n):
    """the condition a tested flag stands for (n itself if it is none)"""
    for _ in range(4):
        x = n
        while x.k in CASTS and x.kids or x.k == "UnaryOperator" and x.op == "!":
            x = x.kids[-1] if x.k in CASTS else x.c[0]
        if x.k == "DeclRefExpr" and x.get("d") in flags(fn):
            n = flags(fn)[x.get("d")]
        else:
            break
    return n


def expand(fn, n):
    """the nodes of a condition, including those of the flags it tests"""
    st = [n]; seen = set()
    while st:
        for x in st.pop().walk():
            yield x
            if x.k == "DeclRefExpr" and x.get("d") in flags(fn) and x.get("d") not in seen:
                seen.add(x.get("d"))
                st.append(flags(fn)[x.get("d")])


def implied(fn, n, truth, depth=0):
    """facts that follow from a tested flag: [(canonical condition, truth)]"""
    pol = True
    while True:
        if n.k in CASTS and n.kids:
            n = n.kids[0] if n.k != "CXXFunctionalCastExpr" else n.kids[-1]
        elif n.k == "UnaryOperator" and n.op == "!":
            pol = not pol
            n = n.c[0]
        elif n.k == "BinaryOperator" and n.op in ("==", "!=") and (is_null(n.c[1]) or is_null(n.c[0])):
            if n.op == "==":
                pol = not pol
            n = n.c[0] if is_null(n.c[1]) else n.c[1]
        else:
            break
    if n.k == "BinaryOperator" and n.op in ("&&", "||") and depth == 0:
        return implied(fn, n.c[1], truth == pol, 0)
    if n.k == "DeclRefExpr" and n.get("d") in flags(fn) and depth < 4:
        init = flags(fn)[n.get("d")]
        at = init.l
        vs = set(); mem = set()
        for x in init.walk():
            if x.k == "DeclRefExpr" and x.get("dk") in ("local", "parm"):
                vs.add(x.get("d"))
            elif x.k == "MemberExpr":
                mem.add(x.src())
        for w in fn.walk():
            if w.l is not None and at < w.l < n.l:
                a, b = writes(w)
                if a & vs or b & mem:
                    return []
        return conj(fn, init, truth == pol, depth + 1)
    return []


def clauses(fn, n, truth):
    """disjunctions that follow from a tested flag: lists of (canonical condition, truth) of which at least one holds"""
    pol = True
    n0, t0 = n, truth
    while True:
        if n.k in CASTS and n.kids:
            n = n.kids[0] if n.k != "CXXFunctionalCastExpr" else n.kids[-1]
        elif n.k == "UnaryOperator" and n.op == "!":
            pol = not pol
            n = n.c[0]
        else:
            break
    if n.k != "DeclRefExpr" or n.get("d") not in flags(fn):
        return []
    init = flags(fn)[n.get("d")]
    x = init
    truth = truth == pol
    while True:
        if x.k in CASTS and x.kids:
            x = x.kids[0] if x.k != "CXXFunctionalCastExpr" else x.kids[-1]
        elif x.k == "UnaryOperator" and x.op == "!":
            truth = not truth
            x = x.c[0]
        else:
            break
    if x.k != "BinaryOperator" or x.op not in ("&&", "||") or truth == (x.op == "&&"):
        return []
    if not implied(fn, n0, not t0):
        # (also rejects flags whose operands change before the test)
        return []
    op = x.op
    out = []
    st = [x]
    while st:
        y = st.pop()
        t = truth
        while True:
            if y.k in CASTS and y.kids:
                y = y.kids[0] if y.k != "CXXFunctionalCastExpr" else y.kids[-1]
            elif y.k == "UnaryOperator" and y.op == "!":
                t = not t
                y = y.c[0]
            else:
                break
        if y.k == "BinaryOperator" and y.op in ("&&", "||"):
            if y.op != op or t != truth:
                return []
            st += [y.c[0], y.c[1]]
            continue
        c = canon(y)
        if c is None:
            return []
        out.append((c, t == c[1]))
    return [out]


def conj(fn, n, truth, depth):
    x = n
    while True:
        if x.k in CASTS and x.kids:
            x = x.kids[0] if x.k != "CXXFunctionalCastExpr" else x.kids[-1]
        elif x.k == "UnaryOperator" and x.op == "!":
            truth = not truth
            x = x.c[0]
        else:
            break
    if x.k == "BinaryOperator" and x.op in ("&&", "||"):
        if truth == (x.op == "&&"):
            return conj(fn, x.c[0], truth, depth) + conj(fn, x.c[1], truth, depth)
        return []
    c = canon(x)
    out = [] if c is None else [(c, truth == c[1])]
    return out + (implied(fn, x, truth, depth) if depth else [])


def by_decl(fn, step):
    """step function that sees every initialised variable as ("decl", id, initialiser)"""
    def go(n, s):
        if not isinstance(n, tuple) and n.k == "DeclStmt":
            for v in n.d["decls"]:
                if fn.varinit.get(v["id"]) is not None:
                    s = step(("decl", v["id"], fn.varinit[v["id"]]), s)
                    if s is None:
                        return None
            return s
        return step(n, s)
    return go


def guards(nodes, rekey=None):
    """keys of the conditions that enclose the given nodes"""
    out = set()
    for n in nodes:
        for a in n.ancestors():
            c = None
            if a.k == "IfStmt":
                c = a.c[2]
            elif a.k in ("WhileStmt",):
                c = a.c[0]
            elif a.k == "ForStmt":
                c = a.c[1]
            elif a.k == "ConditionalOperator" or a.k == "BinaryOperator" and a.op in ("&&", "||"):
                c = a.c[0]
            if c is None:
                continue
            st = [c]
            while st:
                x = st.pop()
                y = x.strip()
                if y.k == "BinaryOperator" and y.op in ("&&", "||"):
                    st += [y.c[0], y.c[1]]
                elif y.k == "UnaryOperator" and y.op == "!":
                    st.append(y.c[0])
                else:
                    for k in [canon(x)] + [c for tr in (True, False) for c, v in implied(n.fn, x, tr)]:
                        if k is not None:
                            if rekey is not None:
                                k = rekey(k)
                            out.add(k[0])
    return out
