#!/usr/bin/env python3
"""Compile the SQL text found in the repository's sqlx macros to Rust code over
the bounded symbolic tables of the sqlx stand-in (stubs/sqlx), for Kani.

Called from the proc macro:  sqlgen.py SCHEMA.json   with JSON on stdin:
  {"kind": "query"|"query_as"|"query_scalar", "ty": "...", "sql": "...", "nargs": N, "args": ["rust expr", ...]}
prints a Rust block expression.
"""
import sys, json, os, re
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from sqlparse import parse_script, SqlUnsupported

RT = "::sqlx::rt"
AGG = {"count", "sum", "total", "max", "min", "avg", "json_group_object", "json_group_array", "group_concat"}


def pack_bytes(b):
    if len(b) > 6:
        h = 1469598103934665603
        for x in b:
            h = ((h ^ x) * 1099511628211) & (2**64 - 1)
        return (h & ((1 << 55) - 1)) | (1 << 62) | 0
    v = len(b)
    for i, x in enumerate(b):
        v |= x << (48 - 8 * i)
    return v


class Ty:
    def __init__(self, rust, nullable):
        self.rust, self.nullable = rust, nullable


def coltype(c):
    t = c["type"]
    if "INT" in t:
        r = "i64"
    elif "CHAR" in t or "TEXT" in t or "CLOB" in t:
        r = "::std::string::String"
    elif "BLOB" in t or t == "":
        r = "::std::vec::Vec<u8>"
    elif "BOOL" in t:
        r = "bool"
    elif "DATETIME" in t:
        r = "::sqlx::chrono::DateTime<::sqlx::chrono::Utc>"
    elif "REAL" in t or "FLOA" in t or "DOUB" in t:
        r = "f64"
    else:
        r = "i64"
    return Ty(r, not c["notnull"])


class Rel:
    """A relation in scope: alias, list of columns -> (rust cell expr, Ty, kind)"""
    def __init__(self, alias, cols):
        self.alias, self.cols = alias, cols  # cols: list of (name, expr, Ty, kind)


class Gen:
    def __init__(self, schema):
        self.schema = {k.lower(): (k, v) for k, v in schema.items()}
        self.n = 0
        self.ctes = {}
        self.nanon = 0
        self.maxparam = 0

    def fresh(self, p="v"):
        self.n += 1
        return f"__{p}{self.n}"

    def tab(self, name):
        x = self.schema.get(name.lower())
        if x is None:
            raise SqlUnsupported(f"unknown table {name}")
        return x

    # ---- columns
    def lookup(self, env, tbl, col):
        for scope in env:
            hits = []
            for rel in scope:
                if tbl is not None and rel.alias.lower() != tbl.lower():
                    continue
                for c in rel.cols:
                    if c[0].lower() == col.lower():
                        hits.append(c)
            if len(hits) > 1 and tbl is None:
                # USING / ambiguous: SQLite would reject; treat as unsupported
                raise SqlUnsupported(f"ambiguous column {col}")
            if hits:
                return hits[0]
        return None

    # ---- expressions: returns (code, Ty, kind)
    def lit(self, v):
        return f"{RT}::Cell::i({v}i64)"

    def expr(self, e, env):
        k = e[0]
        I = Ty("i64", False)
        if k == "int":
            return self.lit(e[1]), I, "cell"
        if k == "real":
            if e[1] != int(e[1]):
                raise SqlUnsupported("non-integral real literal")
            return self.lit(int(e[1])), Ty("f64", False), "cell"
        if k == "str":
            return self.lit(pack_bytes(e[1].encode())), Ty("::std::string::String", False), "cell"
        if k == "blob":
            return self.lit(pack_bytes(e[1])), Ty("::std::vec::Vec<u8>", False), "cell"
        if k == "null":
            return f"{RT}::Cell::NULL", Ty("i64", True), "cell"
        if k == "param":
            n = int(e[1]) - 1 if e[1] is not None else e[2]
            self.maxparam = max(self.maxparam, n + 1)
            return f"__a[{n}]", Ty("i64", True), "cell"
        if k == "col":
            c = self.lookup(env, e[1], e[2])
            if c is None:
                if e[1] is None and e[2].lower() in ("true", "false"):
                    return self.lit(int(e[2].lower() == "true")), I, "cell"
                raise SqlUnsupported(f"unknown column {e[1]}.{e[2]}")
            if c[3] == "gen":
                return self.expr(parse_expr(c[1][0]), [[c[1][1]]])[0], c[2], "cell"
            return c[1], c[2], c[3]
        if k == "un":
            a, t, _ = self.expr(e[2], env)
            f = {"not": "not", "neg": "neg", "~": "bnot", "isnull": "isnull", "notnull": "notnull"}[e[1]]
            return f"{RT}::{f}({a})", Ty("bool" if e[1] != "neg" else t.rust, t.nullable and e[1] in ("not", "neg")), "cell"
        if k == "bin":
            ops = {"=": "eq", "<>": "ne", "<": "lt", "<=": "le", ">": "gt", ">=": "ge", "and": "and", "or": "or",
                   "+": "add", "-": "sub", "*": "mul", "/": "div", "%": "rem", "<<": "shl", ">>": "shr", "&": "band", "|": "bor",
                   "is": "is", "isnot": "isnot"}
            if e[1] not in ops:
                raise SqlUnsupported(f"operator {e[1]}")
            if e[2][0] == "row" and e[3][0] == "row" and e[1] in ("=", "<>"):
                c = None
                for x, y in zip(e[2][1], e[3][1]):
                    q = ("bin", "=", x, y)
                    c = q if c is None else ("bin", "and", c, q)
                return self.expr(c if e[1] == "=" else ("un", "not", c), env)
            a, ta, _ = self.expr(e[2], env)
            b, tb, _ = self.expr(e[3], env)
            rust = ta.rust if e[1] in "+-*/%" else "bool"
            if e[1] in ("+", "-", "*", "/", "%") and "f64" in (ta.rust, tb.rust):
                rust = "f64"
                if e[1] == "/":
                    raise SqlUnsupported("real division")
            nullable = (ta.nullable or tb.nullable) and e[1] not in ("is", "isnot")
            return f"{RT}::{ops[e[1]]}({a}, {b})", Ty(rust, nullable), "cell"
        if k == "in_list":
            code = f"{RT}::Cell::i(0)"
            lhs = e[1]
            for x in e[2]:
                c, _, _ = self.expr(("bin", "=", lhs, x), env)
                code = f"{RT}::or({code}, {c})"
            return code, Ty("bool", True), "cell"
        if k == "in_sub":
            lhs = e[1][1] if e[1][0] == "row" else [e[1]]
            ls = [self.expr(x, env)[0] for x in lhs]
            names = [self.fresh("l") for _ in ls]
            acc = self.fresh("in")
            def sink(cols):
                cond = f"{RT}::Cell::i(1)"
                for n, c in zip(names, cols):
                    cond = f"{RT}::and({cond}, {RT}::eq({n}, {c[0]}))"
                return f"{acc} = {RT}::or({acc}, {cond});"
            body = self.select(e[2], env, sink)
            lets = "".join(f"let {n} = {c};" for n, c in zip(names, ls))
            return f"{{ {lets} let mut {acc} = {RT}::Cell::i(0); {body} {acc} }}", Ty("bool", True), "cell"
        if k == "exists":
            acc = self.fresh("ex")
            body = self.select(e[1], env, lambda cols: f"{acc} = true;")
            return f"{{ let mut {acc} = false; {body} {RT}::Cell::b({acc}) }}", Ty("bool", False), "cell"
        if k == "scalar":
            cols = self.outcols(e[1], env)
            if len(cols) != 1:
                raise SqlUnsupported("scalar subquery with several columns")
            ty, kind = cols[0][1], cols[0][2]
            acc, got = self.fresh("sc"), self.fresh("got")
            body = self.select(e[1], env, lambda cs: f"if !{got} {{ {got} = true; {acc} = {cs[0][0]}; }}")
            init = f"{RT}::JMap::EMPTY" if kind == "jmap" else f"{RT}::Cell::NULL"
            return f"{{ let mut {acc} = {init}; let mut {got} = false; {body} {acc} }}", Ty(ty.rust, True), kind
        if k == "case":
            base, arms, els = e[1], e[2], e[3]
            code, t, _ = self.expr(els, env)
            rt, nullable = None, t.nullable
            for c, v in reversed(arms):
                cc = self.expr(c if base is None else ("bin", "=", base, c), env)[0]
                vv, tv, _ = self.expr(v, env)
                rt = tv.rust
                nullable = nullable or tv.nullable
                code = f"(if {RT}::truthy({cc}) {{ {vv} }} else {{ {code} }})"
            return code, Ty(rt or t.rust, nullable), "cell"
        if k == "cast":
            a, t, kd = self.expr(e[1], env)
            if "INT" in e[2]:
                return a, Ty("i64", t.nullable), kd
            if "REAL" in e[2]:
                return a, Ty("f64", t.nullable), kd
            return a, t, kd
        if k == "fn":
            return self.func(e, env)
        raise SqlUnsupported(f"expression {k}")

    def func(self, e, env):
        n, args = e[1], e[2]
        if n in AGG and not (n in ("max", "min") and len(args) > 1):
            # aggregates are pre-computed; env carries them under a special relation
            key = "agg:" + repr(e)
            c = self.lookup([[r for r in s if r.alias == "\0agg"] for s in env], None, key)
            if c is None:
                raise SqlUnsupported("misplaced aggregate")
            return c[1], c[2], c[3]
        a = [self.expr(x, env) for x in args]
        if n in ("julianday", "unixepoch", "datetime") and len(a) == 1:
            return a[0][0], Ty("::sqlx::chrono::DateTime<::sqlx::chrono::Utc>", a[0][1].nullable), "cell"
        if n in ("coalesce", "ifnull"):
            code = a[-1][0]
            for x in reversed(a[:-1]):
                v = self.fresh("co")
                code = f"{{ let {v} = {x[0]}; if {v}.null {{ {code} }} else {{ {v} }} }}"
            return code, Ty(a[0][1].rust, all(x[1].nullable for x in a)), "cell"
        if n == "nullif":
            v = self.fresh("nf")
            return f"{{ let {v} = {a[0][0]}; if {RT}::truthy({RT}::eq({v}, {a[1][0]})) {{ {RT}::Cell::NULL }} else {{ {v} }} }}", Ty(a[0][1].rust, True), "cell"
        if n in ("max", "min"):
            code = a[0][0]
            for x in a[1:]:
                code = f"{RT}::s{n}({code}, {x[0]})"
            return code, Ty(a[0][1].rust, any(x[1].nullable for x in a)), "cell"
        if n == "abs":
            return f"{RT}::abs({a[0][0]})", a[0][1], "cell"
        if n in ("iif", "if"):
            return f"(if {RT}::truthy({a[0][0]}) {{ {a[1][0]} }} else {{ {a[2][0]} }})", Ty(a[1][1].rust, True), "cell"
        raise SqlUnsupported(f"function {n}")

    # ---- FROM
    def cap(self, tname):
        return f"{RT}::CAP_{tname.upper()}"

    def rel_of_table(self, tname, alias, rowvar, nullable=False):
        real, t = self.tab(tname)
        cols = []
        rel = Rel(alias or real, cols)
        for i, c in enumerate(t["cols"]):
            ty = coltype(c)
            if nullable:
                ty = Ty(ty.rust, True)
            if c["generated"]:
                cols.append((c["name"], (c["generated"], rel), ty, "gen"))
            else:
                cols.append((c["name"], f"{rowvar}.c[{i}]", ty, "cell"))
        return rel

    def scan(self, frm, env, body, outer=False):
        """body: fn(list of Rel) -> code. Returns code iterating over frm."""
        if frm[0] == "src":
            src, alias = frm[1], frm[2]
            if src[0] == "table" and src[1].lower() not in self.ctes:
                real, t = self.tab(src[1])
                if t["triggers"]:
                    raise SqlUnsupported("triggers")
                i, r = self.fresh("i"), self.fresh("r")
                rel = self.rel_of_table(real, alias, r)
                return f"for {i} in 0..{self.cap(real)} {{ let {r} = __db.{real}[{i}]; if {r}.live {{ {body([rel])} }} }}"
            if src[0] == "table":
                q, names = self.ctes[src[1].lower()]
                alias = alias or src[1]
            elif src[0] == "sub":
                q, names = src[1], None
                alias = alias or self.fresh("sub")
            else:
                raise SqlUnsupported("table-valued function")
            def sink(cols):
                cs = []
                lets = ""
                for k, (code, name, ty, kind) in enumerate(cols):
                    v = self.fresh("s")
                    lets += f"let {v} = {code};"
                    cs.append((names[k] if names else name, v, ty, kind))
                return lets + body([Rel(alias, cs)])
            return self.select(q, env, sink)
        _, kind, l, r, cond = frm
        if kind in ("cross", "inner"):
            def lbody(lr):
                def rbody(rr):
                    rels = lr + rr
                    inner = body(rels)
                    if cond is None:
                        return inner
                    c = self.joincond(cond, lr, rr, env)
                    return f"if {RT}::truthy({c}) {{ {inner} }}"
                return self.scan(r, env, rbody)
            return self.scan(l, env, lbody)
        if kind == "left":
            if r[0] != "src" or r[1][0] != "table" or r[1][1].lower() in self.ctes:
                raise SqlUnsupported("LEFT JOIN on a non-table")
            real, t = self.tab(r[1][1])
            def lbody(lr):
                i, rv, m = self.fresh("i"), self.fresh("r"), self.fresh("m")
                rel = self.rel_of_table(real, r[2], rv, nullable=True)
                c = self.joincond(cond, lr, [rel], env) if cond else f"{RT}::Cell::i(1)"
                inner = body(lr + [rel])
                return (f"let mut {m} = false; for {i} in 0..{self.cap(real)}+1 {{ let {rv} = if {i} < {self.cap(real)} {{ __db.{real}[{i}] }} else {{ {RT}::Row::NULLS }};"
                        f" let __ok = if {i} < {self.cap(real)} {{ {rv}.live && {RT}::truthy({c}) }} else {{ !{m} }}; if __ok {{ {m} = true; {inner} }} }}")
            return self.scan(l, env, lbody)
        raise SqlUnsupported(kind)

    def joincond(self, cond, lr, rr, env):
        if cond[0] == "using":
            e = None
            for c in cond[1]:
                a = self.lookup([lr], None, c)[1]
                b = self.lookup([rr], None, c)[1]
                x = f"{RT}::eq({a}, {b})"
                e = x if e is None else f"{RT}::and({e}, {x})"
            return e
        return self.expr(cond, [lr + rr] + env)[0]

    # ---- SELECT
    def has_agg(self, e):
        if isinstance(e, tuple):
            if e and e[0] == "fn" and e[1] in AGG and not (e[1] in ("max", "min") and len(e[2]) > 1):
                return True
            if e and e[0] in ("scalar", "exists"):
                return False
            if e and e[0] == "in_sub":
                return self.has_agg(e[1])
            return any(self.has_agg(x) for x in e)
        if isinstance(e, list):
            return any(self.has_agg(x) for x in e)
        return False

    def aggs(self, e, out):
        if isinstance(e, tuple):
            if e and e[0] == "fn" and e[1] in AGG and not (e[1] in ("max", "min") and len(e[2]) > 1):
                if e not in out:
                    out.append(e)
                return
            if e and e[0] in ("scalar", "exists"):
                return
            for x in e:
                self.aggs(x, out)
        elif isinstance(e, list):
            for x in e:
                self.aggs(x, out)

    def outcols(self, q, env):
        """(name, Ty, kind) of the output columns, by a dry run."""
        saved = self.n
        res = []
        self.select(q, env, lambda cols: res.append([(c[1], c[2], c[3]) for c in cols]) or "")
        self.n = saved
        return res[0]

    def expand(self, cols, rels, env):
        out = []
        for c in cols:
            if c[0] == "star":
                for rel in rels:
                    if rel.alias == "\0agg":
                        continue
                    if c[1] is None or rel.alias.lower() == c[1].lower():
                        for n, code, ty, kind in rel.cols:
                            if kind == "gen":
                                code = self.expr(parse_expr(code[0]), [[code[1]]])[0]
                                kind = "cell"
                            out.append((code, n, ty, kind))
            else:
                code, ty, kind = self.expr(c[1], [rels] + env)
                name = c[2] or (c[1][2] if c[1][0] == "col" else "expr")
                out.append((code, name, ty, kind))
        return out

    def core(self, c, env, sink, order=()):
        """sink(cols, orderkeys)"""
        if "values" in c:
            code = ""
            for row in c["values"]:
                cols = [self.expr(x, env) for x in row]
                code += "{ " + sink([(a, f"column{i+1}", t, k) for i, (a, t, k) in enumerate(cols)], []) + " }"
            return code
        if c["group"] or c["having"]:
            raise SqlUnsupported("GROUP BY")
        exprs = [x[1] for x in c["cols"] if x[0] == "expr"] + [o[0] for o in order]
        aggs = []
        self.aggs(exprs, aggs)

        def orderkeys(rels, cols):
            ks = []
            for (e, d, nulls) in order:
                if e[0] == "int":
                    code = cols[e[1] - 1][0]
                else:
                    code = None
                    if e[0] == "col" and e[1] is None:
                        for cc in cols:
                            if cc[1].lower() == e[2].lower():
                                code = cc[0]
                    if code is None:
                        code = self.expr(e, [rels] + env)[0]
                ks.append((code, d, nulls))
            return ks
        if aggs:
            if c["distinct"]:
                raise SqlUnsupported("DISTINCT with aggregate")
            decl, acols = "", []
            vars_ = []
            for a in aggs:
                v = self.fresh("ag")
                vars_.append(v)
                if a[1] == "json_group_object":
                    decl += f"let mut {v} = {RT}::JMap::EMPTY;"
                else:
                    decl += f"let mut {v} = {RT}::Agg::new();"
            def body(rels):
                upd = ""
                for a, v in zip(aggs, vars_):
                    f, args, opt = a[1], a[2], a[3]
                    if opt["distinct"]:
                        raise SqlUnsupported("aggregate DISTINCT")
                    xs = [self.expr(x, [rels] + env)[0] for x in args]
                    if f == "json_group_object":
                        u = f"{v}.push({xs[0]}, {xs[1]});"
                    elif f == "count" and not args:
                        u = f"{v}.add({RT}::Cell::i(1));"
                    elif f in ("count", "sum", "total", "max", "min"):
                        u = f"{v}.add({xs[0]});"
                    else:
                        raise SqlUnsupported(f)
                    if opt["filter"]:
                        u = f"if {RT}::truthy({self.expr(opt['filter'], [rels] + env)[0]}) {{ {u} }}"
                    upd += u
                if c["where"] is not None:
                    w = self.expr(c["where"], [rels] + env)[0]
                    return f"if {RT}::truthy({w}) {{ {upd} }}"
                return upd
            types = {}
            def typ(rels):
                for a in aggs:
                    if a[2]:
                        types[repr(a)] = self.expr(a[2][-1], [rels] + env)[1]
                return ""
            if c["from"]:
                saved = self.n
                self.scan(c["from"], env, typ)
                self.n = saved
                loop = self.scan(c["from"], env, body)
            else:
                loop = "{ " + body([]) + " }"
            for a, v in zip(aggs, vars_):
                f = a[1]
                t = types.get(repr(a), Ty("i64", False))
                if f == "json_group_object":
                    acols.append(("agg:" + repr(a), v, Ty("Json", False), "jmap"))
                elif f == "count":
                    acols.append(("agg:" + repr(a), f"{v}.count()", Ty("i64", False), "cell"))
                elif f == "total":
                    acols.append(("agg:" + repr(a), f"{v}.total()", Ty("f64", False), "cell"))
                else:
                    acols.append(("agg:" + repr(a), f"{v}.{f}()", Ty(t.rust, True), "cell"))
            rels = [Rel("\0agg", acols)]
            cols = self.expand(c["cols"], rels, env)
            return f"{{ {decl} {loop} {sink(cols, orderkeys(rels, cols))} }}"
        def body(rels):
            cols = self.expand(c["cols"], rels, env)
            inner = sink(cols, orderkeys(rels, cols))
            if c["where"] is not None:
                w = self.expr(c["where"], [rels] + env)[0]
                return f"if {RT}::truthy({w}) {{ {inner} }}"
            return inner
        if c["from"] is None:
            return "{ " + body([]) + " }"
        return "{ " + self.scan(c["from"], env, body) + " }"

    def capexpr_from(self, frm):
        if frm is None:
            return "1"
        if frm[0] == "src":
            s = frm[1]
            if s[0] == "table":
                if s[1].lower() in self.ctes:
                    return self.capexpr(self.ctes[s[1].lower()][0])
                return self.cap(self.tab(s[1])[0])
            if s[0] == "sub":
                return self.capexpr(s[1])
            raise SqlUnsupported("tvf")
        extra = "+1" if frm[1] == "left" else ""
        return f"({self.capexpr_from(frm[2])})*({self.capexpr_from(frm[3])}{extra})"

    def capexpr(self, q):
        for n, cols, sub in q["with"]:
            self.ctes[n.lower()] = (sub, cols)
        parts = []
        for c in q["cores"]:
            parts.append(str(len(c["values"])) if "values" in c else self.capexpr_from(c["from"]))
        return "+".join(f"({p})" for p in parts)

    def select(self, q, env, sink):
        saved = dict(self.ctes)
        try:
            for n, cols, sub in q["with"]:
                self.ctes[n.lower()] = (sub, cols)
            return self._select(q, env, sink)
        finally:
            self.ctes = saved

    def _select(self, q, env, sink):
        if any(o not in ("union_all", "union") for o in q["ops"]):
            raise SqlUnsupported("EXCEPT/INTERSECT")
        dedup = "union" in q["ops"] or any(c.get("distinct") for c in q["cores"])
        if dedup and len(q["cores"]) > 1 and any(o != "union" for o in q["ops"]):
            raise SqlUnsupported("mixed UNION")
        if not q["order"] and q["limit"] is None and not dedup:
            return "".join(self.core(c, env, lambda cols, _k: sink(cols)) for c in q["cores"])
        # materialise
        res = []
        s0 = self.n
        self.core(q["cores"][0], env, lambda cols, ks: res.append((cols, ks)) or "", q["order"])
        self.n = s0
        cols0, ks0 = res[0]
        if any(c[3] != "cell" for c in cols0):
            raise SqlUnsupported("ORDER BY/LIMIT over a JSON column")
        nc, nk = len(cols0), len(ks0)
        buf, cap = self.fresh("buf"), self.capexpr(q)
        dirs = "&[" + ",".join(f"({str(d == 'desc').lower()}, {str(nl == 'first').lower()})" for (_, d, nl) in q["order"]) + "]"
        def push(cols, ks):
            cs = ",".join(c[0] for c in cols)
            kk = ",".join(k[0] for k in ks)
            return f"{buf}.{'push_distinct' if dedup else 'push'}([{cs}], [{kk}]);"
        code = f"let mut {buf} = {RT}::SortBuf::<{nc}, {nk}, {{ {cap} }}>::new();"
        for c in q["cores"]:
            code += self.core(c, env, push, q["order"])
        if q["order"]:
            code += f"{buf}.sort({dirs});"
        lim = self.expr(q["limit"], env)[0] if q["limit"] is not None else f"{RT}::Cell::i(-1)"
        off = self.expr(q["offset"], env)[0] if q["offset"] is not None else f"{RT}::Cell::i(0)"
        i, v = self.fresh("i"), self.fresh("row")
        outs = [(f"{v}[{k}]", c[1], c[2], c[3]) for k, c in enumerate(cols0)]
        code += f"{buf}.limit({lim}, {off}); for {i} in 0..({cap}) {{ if {buf}.keep({i}) {{ let {v} = {buf}.row({i}); {sink(outs)} }} }}"
        return "{ " + code + " }"

    # ---- DML
    def defaults(self, t):
        out = []
        for c in t["cols"]:
            d = c["default"]
            if d is None:
                out.append(f"{RT}::Cell::NULL")
            else:
                d = d.strip()
                if d.startswith('"') and d.endswith('"'):
                    out.append(self.lit(pack_bytes(d[1:-1].encode())))
                else:
                    out.append(self.expr(parse_expr(d), [])[0])
        return out

    def uniq(self, t):
        idx = {c["name"]: i for i, c in enumerate(t["cols"])}
        return [[idx[x] for x in u] for u in t["unique"]]

    def constraints(self, t):
        nn = [i for i, c in enumerate(t["cols"]) if c["notnull"] and not c["generated"]]
        u = self.uniq(t)
        return ("&[" + ",".join(map(str, nn)) + "]",
                "&[" + ",".join("&[" + ",".join(map(str, x)) + "][..]" for x in u) + "]")

    def guard_table(self, real, t):
        if t["triggers"] or t["check"] or t["fks"]:
            raise SqlUnsupported(f"table {real} has triggers/CHECK/foreign keys")

    def insert(self, s, sink):
        real, t = self.tab(s["table"])
        self.guard_table(real, t)
        names = [c["name"].lower() for c in t["cols"]]
        cols = [c.lower() for c in s["cols"]] if s["cols"] else [c["name"].lower() for c in t["cols"] if not c["generated"]]
        for c in cols:
            if c not in names:
                raise SqlUnsupported(f"no column {c}")
        nc = len(names)
        rows = self.fresh("rows")
        dflt = self.defaults(t)
        if s["src"] is None:
            body, cap = f"{rows}.push([{','.join(dflt)}], []);", "1"
        else:
            cap = self.capexpr(s["src"])
            def push(cs):
                if len(cs) != len(cols):
                    raise SqlUnsupported("INSERT arity")
                vals = list(dflt)
                for c, x in zip(cols, cs):
                    vals[names.index(c)] = x[0]
                return f"{rows}.push([{','.join(vals)}], []);"
            body = self.select(s["src"], [], push)
        nn, uq = self.constraints(t)
        orc = s["or"]
        conflict = {None: 0, "abort": 0, "fail": 0, "rollback": 0, "ignore": 1, "replace": 2}[orc]
        if s["upsert"]:
            if s["upsert"][0] == "nothing":
                conflict = 1
            else:
                raise SqlUnsupported("upsert DO UPDATE")
        i, r, ins, save = self.fresh("i"), self.fresh("r"), self.fresh("ins"), self.fresh("save")
        ret = ""
        if s["ret"] is not None:
            rel = self.rel_of_table(real, s["alias"] or real, r)
            ret = sink(self.expand(s["ret"], [rel], []))
        code = (f"let mut {rows} = {RT}::SortBuf::<{nc}, 0, {{ {cap} }}>::new(); {body} let {save} = __db.{real};"
                f"for {i} in 0..({cap}) {{ if {i} < {rows}.len {{ let {r} = {RT}::Row {{ live: true, c: {rows}.row({i}) }};"
                f" let {ins} = match {RT}::insert_row(&mut __db.{real}, {r}, {nn}, {uq}, {conflict}) {{ Ok(x) => x, Err(e) => {{ __db.{real} = {save}; return Err(e); }} }};"
                f" if {ins} {{ __aff += 1; {ret} }} }} }}")
        return "{ " + code + " }"

    def update(self, s, sink):
        real, t = self.tab(s["table"])
        self.guard_table(real, t)
        if s["from"] or s["with"] or s["or"] not in (None, "abort"):
            raise SqlUnsupported("UPDATE variant")
        names = [c["name"].lower() for c in t["cols"]]
        i, r, w, sel, save = (self.fresh(x) for x in ("i", "r", "w", "sel", "save"))
        rel = self.rel_of_table(real, s["alias"] or real, r)
        cond = self.expr(s["where"], [[rel]])[0] if s["where"] is not None else f"{RT}::Cell::i(1)"
        lets, asg = "", ""
        for n, e in s["sets"]:
            v = self.fresh("n")
            lets += f"let {v} = {self.expr(e, [[rel]])[0]};"
            asg += f"{w}.c[{names.index(n.lower())}] = {v};"
        nn, uq = self.constraints(t)
        ret = ""
        if s["ret"] is not None:
            r2 = self.rel_of_table(real, s["alias"] or real, w)
            ret = sink(self.expand(s["ret"], [r2], []))
        # all WHERE clauses are evaluated against the table as it was
        upd = self.fresh("u")
        code = (f"let {save} = __db.{real}; let mut {upd} = {save};"
                f"for {i} in 0..{self.cap(real)} {{ let {r} = {save}[{i}]; if {r}.live && {RT}::truthy({cond}) {{ {lets} let mut {w} = {r}; {asg} {upd}[{i}] = {w}; __aff += 1; {ret} }} }}"
                f" {RT}::check_table(&{upd}, {nn}, {uq})?; __db.{real} = {upd};")
        return "{ " + code + " }"

    def delete(self, s, sink):
        real, t = self.tab(s["table"])
        self.guard_table(real, t)
        if s["with"]:
            raise SqlUnsupported("WITH DELETE")
        i, r, upd = (self.fresh(x) for x in ("i", "r", "u"))
        rel = self.rel_of_table(real, s["alias"] or real, r)
        cond = self.expr(s["where"], [[rel]])[0] if s["where"] is not None else f"{RT}::Cell::i(1)"
        ret = ""
        if s["ret"] is not None:
            ret = sink(self.expand(s["ret"], [rel], []))
        code = (f"let mut {upd} = __db.{real};"
                f"for {i} in 0..{self.cap(real)} {{ let {r} = __db.{real}[{i}]; if {r}.live && {RT}::truthy({cond}) {{ {upd}[{i}].live = false; __aff += 1; {ret} }} }} __db.{real} = {upd};")
        return "{ " + code + " }"

    def ret_cols(self, s):
        real, t = self.tab(s["table"])
        rel = self.rel_of_table(real, s["alias"] or real, "r")
        return [(c[1], c[2], c[3]) for c in self.expand(s["ret"], [rel], [])]

    # ---- whole query
    def program(self, sql):
        """-> (code, outcols or None, cap, maxparam, writes)"""
        stmts = parse_script(sql)
        out, cap = None, "0"
        for s in stmts:
            if s[0] == "select":
                o = self.outcols(s[1], [])
                c = self.capexpr(s[1])
            elif s[0] in ("insert", "update", "delete") and s[1]["ret"] is not None:
                o = self.ret_cols(s[1])
                c = self.capexpr(s[1]["src"]) if s[0] == "insert" and s[1]["src"] else self.cap(self.tab(s[1]["table"])[0])
            else:
                continue
            if out is None:
                out = o
                cap = c
            else:
                if len(o) != len(out):
                    raise SqlUnsupported("several row-returning statements of different shape")
                cap = f"({cap})+({c})"
        code = ""
        writes = False
        for s in stmts:
            # the dry runs above must not consume anonymous parameter numbers: they are fixed by the parser
            def sink(cols):
                if getattr(self, "dyn", False):
                    return "__out.push(crate::rt::DynRow::of(&[" + ",".join(json.dumps(str(c[0])) for c in out) + "], &[" + ",".join(str(c[0]) for c in cols) + "]));"
                return "__out.push(__Out {" + ",".join(f"c{k}: {c[0]}" for k, c in enumerate(cols)) + "});"
            if s[0] == "select":
                b = self.select(s[1], [], sink)
            elif s[0] in ("insert", "update", "delete"):
                writes = True
                b = getattr(self, s[0])(s[1], sink)
            elif s[0] in ("savepoint", "release", "pragma"):
                b = f"{RT}::{'savepoint' if s[0] == 'savepoint' else 'release'}();" if s[0] != "pragma" else ""
                code += b
                continue
            else:
                raise SqlUnsupported(f"statement {s[0]}")
            code += f"{RT}::step(__db)?; {b} if __one && __out.len > 0 {{ return Ok(__aff); }}"
        return code, out, cap, self.maxparam, writes


def parse_expr(text):
    from sqlparse import P
    p = P(text)
    e = p.expr()
    if p.peek()[0] != "eof":
        raise SqlUnsupported("trailing input in expression")
    return e


def column_override(name):
    """sqlx column-name overrides: name, name!, name?, name: T, name!: T, name?: T"""
    ty = None
    if ":" in name:
        name, ty = name.split(":", 1)
        ty = ty.strip()
    name = name.strip()
    force = None
    if name.endswith("!"):
        force, name = "!", name[:-1]
    elif name.endswith("?"):
        force, name = "?", name[:-1]
    if ty == "_":
        ty = None
    return name.strip(), force, ty


def rust_str(s):
    return json.dumps(s).replace("\\u", "\\u") if all(ord(c) < 128 for c in s) else 'r####"' + s + '"####'


def compile_query(schema, req):
    g = Gen(schema)
    code, out, cap, maxparam, writes = g.program(req["sql"])
    if maxparam > req["nargs"]:
        raise SqlUnsupported(f"query uses {maxparam} parameters, {req['nargs']} given")
    cols = out or []
    fields = "".join(f"c{i}: {RT}::{'JMap' if c[2] == 'jmap' else 'Cell'}," for i, c in enumerate(cols))
    defs = "".join(f"c{i}: {RT}::{'JMap::EMPTY' if c[2] == 'jmap' else 'Cell::NULL'}," for i, c in enumerate(cols))
    fromv = "".join(f"c{i}: {RT}::From_::from_val(&__v[{i}])," for i, c in enumerate(cols))
    recs, maps = [], []
    for i, c in enumerate(cols):
        name, force, ty = column_override(c[0])
        nullable = c[1].nullable
        if force == "!":
            nullable = False
        if force == "?":
            nullable = True
        base = ty or ("::sqlx::types::Json<::serde_json::Value>" if c[1].rust == "Json" else c[1].rust)
        rty = f"::std::option::Option<{base}>" if nullable else base
        recs.append((name, rty))
        maps.append(f"::sqlx::vdec!({rty}, __o.c{i})")
    pre = ""
    if req["kind"] == "query":
        rec = "__Record"
        pre = "#[derive(Debug)] #[allow(dead_code)] struct __Record { pub __tag: ::sqlx::rt::Tag, " + "".join(f"pub r#{n}: {t}," for n, t in recs) + " }"
        build = "__Record { __tag: ::sqlx::rt::Tag::A, " + "".join(f"r#{n}: {m}," for (n, _), m in zip(recs, maps)) + " }"
    elif req["kind"] == "query_as":
        rec = req["ty"]
        build = f"{rec} {{ " + "".join(f"r#{n}: ::std::convert::Into::into({m})," for (n, _), m in zip(recs, maps)) + " }"
    else:
        if len(recs) != 1:
            raise SqlUnsupported("query_scalar needs one column")
        rec = recs[0][1]
        build = maps[0]
    nargs = req["nargs"]
    lets = "".join(f"{RT}::enc(&({a}))," for a in req["args"])
    return f"""{{
 #[derive(Clone, Copy)] #[allow(dead_code)] struct __Out {{ {fields} }}
 impl {RT}::OutRow for __Out {{ const EMPTY: Self = __Out {{ {defs} }}; fn from_vals(__v: &[{RT}::Val]) -> Self {{ __Out {{ {fromv} }} }} }}
 {pre}
 #[allow(unused_variables, unused_mut, unused_assignments, unused_braces, unused_parens, clippy::all)]
 fn __run(__db: &mut {RT}::Db, __a: &[{RT}::Cell], __one: bool, __out: &mut {RT}::RowBuf<__Out, {{ ({cap}) + 1 }}>) -> ::sqlx::Result<u64> {{
   let mut __aff: u64 = 0; {code} Ok(__aff) }}
 #[allow(unused_variables)]
 fn __map(__o: __Out) -> ::sqlx::Result<{rec}> {{ Ok({build}) }}
 {RT}::Query::<__Out, {rec}, {nargs}, {{ ({cap}) + 1 }}>::new([{lets}], {rust_str(req["sql"])}, __run, __map)
}}"""


def schema_rs(schema, caps):
    o = ["// generated from the repository's migrations"]
    for t, v in schema.items():
        o.append(f"pub const CAP_{t.upper()}: usize = {caps.get(t, 2)}; pub const CAPC_{t.upper()}: usize = {len(schema[t]['cols'])};")
        o.append(f"pub mod col_{t} {{ #![allow(dead_code)] " + " ".join(f"pub const {c['name'].upper()}: usize = {i};" for i, c in enumerate(v["cols"])) + " }")
    o.append("#[derive(Clone, Copy, PartialEq, Eq)] #[allow(non_snake_case)] pub struct Db { " + " ".join(f"pub {t}: [Row<{len(v['cols'])}>; CAP_{t.upper()}]," for t, v in schema.items()) + " }")
    o.append("impl Db { pub const EMPTY: Db = Db { " + " ".join(f"{t}: [Row::EMPTY; CAP_{t.upper()}]," for t in schema) + " }; }")
    meta = ",".join("(%s, &[%s])" % (json.dumps(t), ",".join("(%s,%s,%s)" % (json.dumps(c["name"]), json.dumps(c["type"]), "true" if c["generated"] else "false") for c in v["cols"])) for t, v in schema.items())
    o.append("#[allow(clippy::type_complexity)] pub const TABLES: &[(&str, &[(&str, &str, bool)])] = &[" + meta + "];")
    o.append("impl Db { pub fn each(&self, f: &mut dyn FnMut(&'static str, usize, &[Cell])) { " + " ".join(f"for r in self.{t}.iter() {{ if r.live {{ f({json.dumps(t)}, {k}, &r.c); }} }}" for k, t in enumerate(schema)) + " }")
    o.append("pub fn put(&mut self, table: &str, cells: &[Cell]) { match table { " + " ".join(f"{json.dumps(t)} => {{ for r in self.{t}.iter_mut() {{ if !r.live {{ r.live = true; r.c.copy_from_slice(cells); return; }} }} panic!(\"MODEL-CAPACITY\") }}" for t in schema) + " _ => panic!(\"no table\") } } }")
    # symbolic rows: every value of the column's type (text and blobs: at most one byte)
    for t, v in schema.items():
        body = []
        for i, c in enumerate(v["cols"]):
            ty = coltype(c)
            if c["generated"]:
                continue
            if ty.rust in ("::std::string::String", "::std::vec::Vec<u8>"):
                e = "sym_text()" if ty.rust.endswith("String") else "sym_blob()"
            elif ty.rust == "bool":
                e = "Cell::b(vsym::bool_())"
            elif "DateTime" in ty.rust:
                e = "sym_time()"
            else:
                e = "Cell::i(vsym::sparse())"
            if not c["notnull"]:
                e = f"if vsym::bool_() {{ Cell::NULL }} else {{ {e} }}"
            body.append(f"r.c[{i}] = {e};")
        n = len(v["cols"])
        nn = "&[" + ",".join(str(i) for i, c in enumerate(v["cols"]) if c["notnull"] and not c["generated"]) + "]"
        idx = {c["name"]: i for i, c in enumerate(v["cols"])}
        uq = "&[" + ",".join("&[" + ",".join(str(idx[x]) for x in u) + "][..]" for u in v["unique"]) + "]"
        o.append(f"pub fn sym_{t}(n: usize) -> [Row<{n}>; CAP_{t.upper()}] {{ let mut t = [Row::EMPTY; CAP_{t.upper()}]; for i in 0..CAP_{t.upper()} {{ if i < n && vsym::bool_() {{ let mut r: Row<{n}> = Row::EMPTY; r.live = true; {' '.join(body)} t[i] = r; }} }} vsym::assume(check_table(&t, {nn}, {uq}).is_ok()); t }}")
    return "\n".join(o) + "\n"


def sqlite_rejects(sql):
    import sqlite3
    try:
        sqlite3.connect(":memory:").execute("EXPLAIN " + sql)
    except sqlite3.OperationalError as e:
        return "syntax error" in str(e) or "incomplete input" in str(e)
    except Exception:
        pass
    return False


def dyn_rs(schema, texts):
    """texts: [(nbinds, sql)] recorded from the real query builders -> dispatcher by (length, binds)."""
    arms, seen = [], {}
    for nb, sql in texts:
        if (len(sql), nb) in seen:
            if seen[len(sql), nb] != sql:
                arms.insert(0, f"({len(sql)}, {nb}) => panic!(\"VERIF-MODEL: ambiguous dynamic SQL text\"),")
            continue
        seen[len(sql), nb] = sql
        g = Gen(schema)
        g.dyn = True
        try:
            code, out, cap, maxparam, writes = g.program(sql)
        except SqlUnsupported as e:
            # a text SQLite itself rejects fails at run time; anything else is outside the model and must not be reached
            fails = "crate::rt::step(__db)?; return Err(crate::Error::Constraint);" if sqlite_rejects(sql) else f"panic!({json.dumps('VERIF-MODEL: ' + re.sub(r'[{}]', '', str(e)))})"
            arms.append(f"({len(sql)}, {nb}) => {{ {fails} }}")
            continue
        arms.append(f"({len(sql)}, {nb}) => {{ let mut __aff: u64 = 0; {code} return Ok(__aff); }}")
    return ("#[allow(unused_variables, unused_mut, unused_assignments, unused_braces, unused_parens)]\n"
            "pub fn dyn_run(len: usize, n: usize, __db: &mut Db, __a: &[Cell], __one: bool, __out: &mut RowBuf<DynRow, {crate::builder::DYNCAP}>) -> Result<u64> {"
            " match (len, n) { " + " ".join(arms) + " _ => panic!(\"VERIF-MODEL: no plan for this dynamic SQL text\") } }\n").replace("::sqlx::rt::", "crate::rt::")


if __name__ == "__main__":
    schema = json.load(open(sys.argv[1]))
    req = json.load(sys.stdin)
    try:
        print(compile_query(schema, req))
    except SqlUnsupported as e:
        print("::core::compile_error!(%s)" % json.dumps(f"VERIF-UNSUPPORTED-SQL: {e}"))
