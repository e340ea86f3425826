"""Path queries and forward dataflow over the extracted control flow graphs."""
from .model import CASTS


class Pos:
    """statement order of one function: position of each node in the CFG"""
    _cache = {}

    def __init__(self, fn):
        self.fn = fn; g = fn.cfg
        self.g = g
        self.at = {}
        if g:
            for b in g.b.values():
                for i, s in enumerate(b.s):
                    if s >= 0 and s not in self.at:
                        self.at[s] = (b.id, i)

    @classmethod
    def of(cls, fn):
        p = cls._cache.get(id(fn))
        if p is None:
            p = cls(fn)
            cls._cache[id(fn)] = p
        return p

    def where(self, n):
        """CFG position of node n (or of the closest enclosing node that has one)"""
        while n is not None:
            if n.i in self.at:
                return self.at[n.i]
            n = n.parent
        return None


def reach(fn, start, stop, goal=None, edge=None, from_entry=False):
    """Is there a path from just after `start` (a node) to function exit (goal None) or to a node in goal that
    avoids every node for which stop(node) holds? Returns the list of line numbers of such a path, or None.
    edge(block, succ_index) may veto an edge. Blocks that end in a noreturn call have no exit."""
    p = Pos.of(fn); g = p.g
    if g is None:
        return None
    if from_entry:
        b0, i0 = g.entry, -1
    else:
        w = p.where(start)
        if w is None:
            return None
        b0, i0 = w
    st = [(b0, i0 + 1, ())]
    seen = set()
    while st:
        b, i, path = st.pop()
        B = g.b[b]
        blocked = False
        if i == 0:
            if b in seen:
                continue
            seen.add(b)
        for s in B.s[i:]:
            n = fn.nodes.get(s) if s >= 0 else None
            if n is None:
                continue
            if goal is not None and goal(n):
                return list(path) + [n.l]
            if stop(n):
                blocked = True
                break
        if blocked or B.noret:
            continue
        if goal is None and b == g.exit:
            return list(path)
        for k, s in enumerate(B.succ):
            if s is None or (edge is not None and not edge(B, k)):
                continue
            ln = 0
            S = g.b[s]
            for x in S.s:
                if x >= 0 and x in fn.nodes:
                    ln = fn.nodes[x].l; break
            st.append((s, 0, path + ((ln,) if ln and len(path) < 30 else ())))
    return None


def forward(fn, init, transfer, join, edge=None, limit=2000):
    """generic forward dataflow over hashable states; transfer(node, state) -> state.
    Returns state at block entry. edge(B, k, state) -> state or None to drop the edge."""
    g = fn.cfg
    if g is None:
        return {}
    inn = {g.entry: init}
    work = [g.entry]
    it = 0
    while work and it < limit * max(1, len(g.b)):
        it += 1
        b = work.pop()
        B = g.b[b]
        s = inn[b]
        for x in B.s:
            n = fn.nodes.get(x) if x >= 0 else None
            if n is not None:
                s = transfer(n, s)
        if B.noret:
            continue
        for k, t in enumerate(B.succ):
            if t is None:
                continue
            e = edge(B, k, s) if edge is not None else s
            if e is None:
                continue
            o = inn.get(t)
            m = e if o is None else join(o, e)
            if o is None or m != o:
                inn[t] = m
                work.append(t)
    return inn


def states(fn, inn, transfer):
    """yield (node, state before node) for every node in the CFG"""
    g = fn.cfg
    for b, s in inn.items():
        for x in g.b[b].s:
            n = fn.nodes.get(x) if x >= 0 else None
            if n is not None:
                yield n, s
                s = transfer(n, s)


_rd = {}


def reaching(fn):
    """(use node, local id) -> list of right-hand sides whose value may be in the variable at the use (None: unknown position)"""
    r = _rd.get(id(fn))
    if r is not None:
        return r[1]
    from .lib import varid
    defs = {}                      # node id -> (var, rhs)
    multi = {}
    for n in fn.walk():
        if n.k == "DeclStmt":
            for v in n.d["decls"]:
                if v["id"] in fn.varinit:
                    defs.setdefault(n.i, []).append((v["id"], fn.varinit[v["id"]]))
                    multi[v["id"]] = multi.get(v["id"], 0) + 1
        elif n.k == "BinaryOperator" and n.op == "=":
            d = varid(n.c[0])
            if d is not None:
                defs.setdefault(n.i, []).append((d, n.c[1]))
                multi[d] = multi.get(d, 0) + 1
    want = {d for d, c in multi.items() if c > 1}
    pos = Pos.of(fn)
    ent = {}
    if want and fn.cfg is not None:
        def tr(n, s):
            for d, rhs in defs.get(n.i, ()):
                if d in want:
                    s = frozenset(x for x in s if x[0] != d) | {(d, rhs.i)}
            return s
        inn = forward(fn, frozenset(), tr, lambda a, b: a | b)
    else:
        inn = None

    def query(use, d):
        if d not in want:
            for lst in defs.values():
                for v, rhs in lst:
                    if v == d:
                        return [rhs]
            return []
        if inn is None:
            return None
        w = pos.where(use)
        if w is None:
            return None
        b, i = w
        if b not in inn:
            return None
        s = inn[b]
        g = fn.cfg
        for x in g.b[b].s[:i]:
            n = fn.nodes.get(x) if x >= 0 else None
            if n is not None:
                s = tr(n, s)
        return [fn.nodes[r] for v, r in s if v == d]
    _rd[id(fn)] = (fn, query)
    return query
