"""P10: every Fortran binding declares the C function it is bound to: existing, same arguments in the same order, same width,
kind and passing mode, same result."""
import os, re
from .. import extract as X

KINDS = {"c_int": ("int", 32), "c_int32_t": ("int", 32), "c_int64_t": ("int", 64), "c_long": ("int", 64), "c_long_long": ("int", 64),
         "c_size_t": ("int", 64), "c_short": ("int", 16), "c_int16_t": ("int", 16), "c_int8_t": ("int", 8), "c_signed_char": ("int", 8),
         "c_double": ("float", 64), "c_float": ("float", 32), "c_bool": ("bool", 8), "c_char": ("int", 8), "c_intptr_t": ("int", 64)}


def statements(path):
    """logical statements (line, text) with comments and continuations resolved"""
    out = []; buf = ""; start = 0
    for ln, raw in enumerate(open(path, errors="replace"), 1):
        s = ""; q = None
        for ch in raw.rstrip("\n"):
            if q:
                s += ch
                if ch == q:
                    q = None
            elif ch in "'\"":
                q = ch; s += ch
            elif ch == "!":
                break
            else:
                s += ch
        s = s.strip()
        if not s or s.startswith("#"):
            continue
        if buf and s.startswith("&"):
            s = s[1:].lstrip()
        if not buf:
            start = ln
        if s.endswith("&"):
            buf += s[:-1] + " "
            continue
        for part in (buf + s).split(";"):
            if part.strip():
                out.append((start, part.strip()))
        buf = ""
    return out


def ftype(decl):
    """(what, width) of a Fortran type specification"""
    d = decl.lower().replace(" ", "")
    m = re.match(r"(integer|real|logical|character)\((?:kind=|len=\d+,kind=|len=\*,kind=)?(\w+)\)", d)
    if m:
        return KINDS.get(m.group(2), ("?", 0))
    if d.startswith("type(c_ptr)"):
        return ("ptr", 64)
    if d.startswith("type(c_funptr)"):
        return ("fptr", 64)
    m = re.match(r"(integer|real|logical|character|doubleprecision)$", d)
    if m:
        return {"integer": ("int", 32), "real": ("float", 32), "logical": ("int", 32), "character": ("int", 8), "doubleprecision": ("float", 64)}[d]
    return ("?", 0)


TYPE = r"(?:integer|real|logical|character|type|double\s*precision)\s*(?:\([^)]*\))?"
PROC = re.compile(r"^(?P<pre>(?:(?:pure|elemental|recursive|impure)\s+)*(?:%s)?\s*)\b(?P<what>function|subroutine)\s+(?P<name>\w+)\s*(?:\((?P<args>[^)]*)\))?(?P<rest>.*)$" % TYPE, re.I)
DECL = re.compile(r"^(?P<t>%s)\s*(?P<attr>(?:,[^:]*)?)::\s*(?P<names>.*)$" % TYPE, re.I)


def split_names(s):
    out = []; d = 0; cur = ""
    for ch in s:
        if ch == "(":
            d += 1
        if ch == ")":
            d -= 1
        if ch == "," and d == 0:
            out.append(cur); cur = ""
        else:
            cur += ch
    out.append(cur)
    return [x.strip() for x in out if x.strip()]


def procedures(path):
    stack = []; out = []; iface = 0
    for ln, s in statements(path):
        low = s.lower()
        if re.match(r"^(abstract\s+)?interface\b", low):
            iface += 1; continue
        if re.match(r"^end\s*interface\b", low):
            iface -= 1; continue
        if re.match(r"^end\s*(function|subroutine)\b", low) or (low == "end" and stack):
            if stack:
                out.append(stack.pop())
            continue
        m = PROC.match(s)
        if m and not low.startswith("end"):
            rest = m.group("rest")
            b = re.search(r"bind\s*\(\s*c\s*(?:,\s*name\s*=\s*['\"]([^'\"]*)['\"])?\s*\)", rest, re.I)
            r = re.search(r"result\s*\(\s*(\w+)\s*\)", rest, re.I)
            pre = re.sub(r"\b(pure|elemental|recursive|impure)\b", "", m.group("pre"), flags=re.I).strip()
            stack.append({"name": m.group("name"), "what": m.group("what").lower(), "args": [a.strip().lower() for a in split_names(m.group("args") or "")],
                          "bind": (b.group(1) or m.group("name").lower()) if b else None, "result": (r.group(1) if r else m.group("name")).lower(),
                          "ret": ftype(pre) if pre else None, "decl": {}, "line": ln, "iface": iface > 0})
            continue
        m = DECL.match(s)
        if m and stack:
            t = ftype(m.group("t")); attr = m.group("attr").lower()
            for n in split_names(m.group("names")):
                n = n.split("=")[0].strip()
                base = re.match(r"\w+", n).group(0).lower()
                arr = "dimension" in attr or "(" in n
                stack[-1]["decl"][base] = (t, re.search(r"\bvalue\b", attr) is not None, arr)
    return out + stack


def cwhat(t):
    if t is None:
        return ("void", 0)
    if t.k == "ptr":
        u = t.to
        if u is not None and (u.k == "fn" or "(" in u.cs and "*" not in u.cs.split("(")[0] and u.k not in ("rec", "int", "ptr")):
            return ("fptr", 64)
        return ("ptr", 64)
    if t.k in ("int", "enum"):
        return ("int", t.w or 32)
    if t.k in ("float", "real", "flt"):
        return ("float", t.w or 64)
    if t.k == "bool":
        return ("bool", 8)
    if t.cs.replace("const ", "") == "double":
        return ("float", 64)
    if t.cs.replace("const ", "") == "float":
        return ("float", 32)
    if t.cs == "void":
        return ("void", 0)
    if t.k == "arr":
        return ("ptr", 64)
    return (t.k or "?", t.w or 0)


def fshow(t, val, arr):
    return "%s%s%s" % ("%s%d" % t if t[0] not in ("ptr", "fptr") else t[0], "" if val else " by reference", " array" if arr else "")


def compatible(f, val, arr, ct):
    c = cwhat(ct)
    if f[0] == "?":
        return True
    if val and not arr:
        if f[0] == "ptr":
            if ct.k == "ptr" and ct.to is not None and ct.to.k == "ptr" and re.match(r"(const )?t8_\w+_(t|c)$", ct.to.s) \
                    and ct.to.to is not None and ct.to.to.k == "rec":
                return False    # a handle returned through its address has to be passed by reference
            return c[0] in ("ptr", "fptr") and not ct.s.replace("const ", "").strip() in ("sc_MPI_Comm", "MPI_Comm")
        if f[0] == "fptr":
            return c[0] == "fptr" or c[0] == "ptr"
        if f[0] == "bool":
            return c[0] == "bool" or (c[0] == "int" and c[1] == 8)
        return c == f
    if c[0] != "ptr":
        return False
    u = ct.to if ct.k == "ptr" else ct.base_elem()
    if u is None or u.cs.replace("const ", "") == "void":
        return True
    cu = cwhat(u)
    if f[0] == "ptr":
        return cu[0] == "ptr"
    return cu == f


def run_P10(P, rep):
    protos = {}
    for p in P.protos:
        if not p.get("cls") and (p["n"] not in protos or len(p.get("params", ())) > len(protos[p["n"]].get("params", ()))):
            protos[p["n"]] = p
    files = []
    for root, dirs, fs in os.walk(os.path.join(X.REPO, "api")):
        files += [os.path.join(root, f) for f in sorted(fs) if f.lower().endswith((".f90", ".f", ".f03", ".f08"))]
    callbacks = set()
    for path in files:
        rel = os.path.relpath(path, X.REPO)
        for p in procedures(path):
            if p["bind"] is None:
                continue
            where = "%s:%d" % (rel, p["line"]); cn = p["bind"]
            if not p["iface"]:
                # implemented in Fortran, called from C through a function pointer: must match one of the callback types
                sig = []
                for f in P.all:
                    if f.relfile.startswith("api/"):
                        for i in range(len(f.params)):
                            t = f.ptype(i)
                            if cwhat(t)[0] == "fptr" and t.to is not None and "callback" in t.s:
                                sig.append(t.to)
                if not sig:
                    continue
                def matches(u):
                    m = re.match(r"^(.*?)\s*\((.*)\)$", u.cs)
                    if not m:
                        return True
                    ps = [x.strip() for x in m.group(2).split(",")] if m.group(2).strip() not in ("", "void") else []
                    W = {"int": ("int", 32), "double": ("float", 64), "float": ("float", 32), "long": ("int", 64), "void": ("void", 0)}
                    fs = []
                    for a in p["args"]:
                        d = p["decl"].get(a)
                        fs.append(d[0] if d and d[1] else ("ptr", 64))
                    r = p["ret"] or (p["decl"].get(p["result"]) or (("void", 0),))[0]
                    return len(ps) == len(fs) and all(W.get(a, ("ptr", 64)) == b for a, b in zip(ps, fs)) and W.get(m.group(1).strip(), ("ptr", 64)) == r
                if any(matches(u) for u in sig):
                    rep.ok("Fortran callback", p["name"])
                else:
                    rep.bad("callback:%s" % p["name"], "the Fortran procedure %s does not have the signature of any callback type of the C interface" % p["name"], where)
                continue
            rep.ok("Fortran binding", "%s -> %s" % (p["name"], cn))
            pr = protos.get(cn)
            fns = [f for f in P.byname.get(cn, []) if not f.tmpl and not f.inst and not f.cls]
            fn = fns[0] if fns else None
            if pr is None and fn is None:
                rep.bad("missing:%s" % cn, "%s is bound to the C function %s, which does not exist" % (p["name"], cn), where)
                continue
            if fn is not None:
                ptypes = [fn.ptype(i) for i in range(len(fn.params))]; pnames = [x["n"] for x in fn.params]; ret = fn.ret
            else:
                tu = pr["_tu"]
                ptypes = [tu.type(x["t"]) for x in pr["params"]]; pnames = [x["n"] for x in pr["params"]]; ret = tu.type(pr["ret"])
            if len(ptypes) != len(p["args"]):
                rep.bad("arity:%s" % cn, "%s declares %d arguments, the C function %s has %d" % (p["name"], len(p["args"]), cn, len(ptypes)), where)
                continue
            low = [str(x).lower() for x in pnames]
            for i, a in enumerate(p["args"]):
                d = p["decl"].get(a)
                if d is None:
                    rep.bad("undeclared:%s:%s" % (cn, a), "argument %s of %s has no declared C type" % (a, p["name"]), where)
                    continue
                if compatible(d[0], d[1], d[2], ptypes[i]):
                    rep.ok("argument", "%s.%s" % (cn, a))
                else:
                    rep.bad("param:%s:%s" % (cn, a), "argument %d (%s) of the binding %s is %s, but %s takes '%s %s'"
                            % (i + 1, a, p["name"], fshow(*d), cn, ptypes[i].s, pnames[i]), where)
                if a != low[i] and a in low and low[i] in p["args"]:
                    rep.bad("order:%s:%s" % (cn, a), "argument %d of the binding %s is %s, but the C function %s has %s there" % (i + 1, p["name"], a, cn, pnames[i]), where)
            if p["what"] == "subroutine":
                r = ("void", 0)
            else:
                r = p["ret"] or (p["decl"].get(p["result"]) or (("?", 0),))[0]
            c = cwhat(ret)
            if c == ("fptr", 64):
                c = ("ptr", 64)
            if r[0] == "?" or r == c:
                rep.ok("result", cn)
            elif r[0] == "void":
                rep.bad("result:%s" % cn, "the binding %s is a subroutine, but %s returns '%s'" % (p["name"], cn, ret.s), where)
            else:
                rep.bad("result:%s" % cn, "the binding %s returns %s%d, but %s returns '%s'" % (p["name"], r[0], r[1], cn, ret.s if ret else "void"), where)
    rep.need("Fortran binding", 5)
