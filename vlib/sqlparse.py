"""A small SQL front end for the SQLite dialect used by opsqueue.

parse_script(text) -> list of statements (nested tuples / dicts).
Anything outside the supported subset raises SqlUnsupported: the caller must
then give "no answer" rather than guess.
"""
import re, sqlite3, glob, os


class SqlUnsupported(Exception):
    pass


KEYWORDS = set("""select from where and or not in is null insert into values update set delete
returning order by asc desc limit offset union all except intersect with as join inner left outer cross on using
group having distinct case when then else end cast exists between like glob escape nulls first last over
partition savepoint release rollback to begin commit transaction pragma default ignore replace abort fail
conflict do nothing materialized collate isnull notnull filter recursive rows true false""".split())

TOK = re.compile(r"""
  (?P<ws>\s+|--[^\n]*|/\*.*?\*/)
 |(?P<num>\d+\.\d*(?:[eE][+-]?\d+)?|\.\d+|\d+(?:[eE][+-]?\d+)?|0x[0-9a-fA-F]+)
 |(?P<str>'(?:[^']|'')*')
 |(?P<blob>[xX]'[0-9a-fA-F]*')
 |(?P<qid>"(?:[^"]|"")*"|`[^`]*`|\[[^\]]*\])
 |(?P<param>\?\d*|\$\d+|[:@$][A-Za-z_]\w*)
 |(?P<id>[A-Za-z_][A-Za-z0-9_$]*)
 |(?P<op>\|\||<<|>>|<=|>=|<>|!=|==|->>|->|[-+*/%&|~<>=(),.;])
""", re.X | re.S)


def lex(s):
    out, i = [], 0
    while i < len(s):
        m = TOK.match(s, i)
        if not m:
            raise SqlUnsupported(f"lex error at {s[i:i+20]!r}")
        i = m.end()
        k = m.lastgroup
        if k == "ws":
            continue
        t = m.group()
        if k == "id":
            out.append(("kw" if t.lower() in KEYWORDS else "id", t.lower() if t.lower() in KEYWORDS else t))
        elif k == "qid":
            out.append(("qid", t[1:-1].replace('""', '"')))
        elif k == "str":
            out.append(("str", t[1:-1].replace("''", "'")))
        else:
            out.append((k, t))
    out.append(("eof", ""))
    return out


class P:
    def __init__(self, sql):
        self.sql = sql
        self.t = lex(sql)
        self.i = 0
        self.anon = 0

    # -- helpers
    def peek(self, k=0):
        return self.t[min(self.i + k, len(self.t) - 1)]

    def nxt(self):
        x = self.t[self.i]
        self.i += 1
        return x

    def iskw(self, *ws):
        for k, w in enumerate(ws):
            if self.peek(k) != ("kw", w):
                return False
        return True

    def kw(self, *ws):
        if self.iskw(*ws):
            self.i += len(ws)
            return True
        return False

    def need(self, *ws):
        if not self.kw(*ws):
            raise SqlUnsupported(f"expected {' '.join(ws).upper()} near {self.peek()} in {self.sql!r}")

    def isop(self, o):
        return self.peek() == ("op", o)

    def op(self, o):
        if self.isop(o):
            self.i += 1
            return True
        return False

    def needop(self, o):
        if not self.op(o):
            raise SqlUnsupported(f"expected {o!r} near {self.peek()} in {self.sql!r}")

    def name(self):
        k, v = self.nxt()
        if k in ("id", "qid", "str"):
            return v
        if k == "kw" and v in ("first", "last", "key", "default", "ignore", "replace", "rows", "filter", "abort", "fail", "over", "partition", "conflict", "do", "nothing", "materialized", "transaction", "begin", "true", "false", "end", "recursive", "to", "inner"):
            return v
        raise SqlUnsupported(f"expected name, got {(k, v)} in {self.sql!r}")

    # -- statements
    def script(self):
        out = []
        while True:
            while self.op(";"):
                pass
            if self.peek()[0] == "eof":
                return out
            out.append(self.stmt())
            if self.peek()[0] != "eof":
                self.needop(";")

    def stmt(self):
        ctes = []
        if self.iskw("with"):
            ctes = self.with_()
        if self.iskw("select") or self.iskw("values"):
            q = self.select()
            q["with"] = ctes + q["with"]
            return ("select", q)
        if self.iskw("insert") or self.iskw("replace"):
            return self.insert(ctes)
        if self.iskw("update"):
            return self.update(ctes)
        if self.iskw("delete"):
            return self.delete(ctes)
        if ctes:
            raise SqlUnsupported("WITH on unsupported statement")
        if self.kw("savepoint"):
            return ("savepoint", self.name())
        if self.kw("release"):
            self.kw("savepoint")
            return ("release", self.name())
        if self.kw("rollback"):
            self.kw("transaction")
            if self.kw("to"):
                self.kw("savepoint")
                return ("rollback_to", self.name())
            return ("rollback",)
        if self.kw("pragma"):
            while self.peek()[0] != "eof" and not self.isop(";"):
                self.nxt()
            return ("pragma",)
        if self.iskw("begin") or self.iskw("commit") or self.iskw("end"):
            self.nxt()
            while self.peek()[0] in ("id", "kw"):
                self.nxt()
            return ("txctl",)
        raise SqlUnsupported(f"statement {self.peek()} in {self.sql!r}")

    def with_(self):
        self.need("with")
        if self.kw("recursive"):
            raise SqlUnsupported("recursive CTE")
        out = []
        while True:
            n = self.name()
            cols = None
            if self.op("("):
                cols = [self.name()]
                while self.op(","):
                    cols.append(self.name())
                self.needop(")")
            self.need("as")
            if self.kw("not"):
                self.need("materialized")
            else:
                self.kw("materialized")
            self.needop("(")
            q = self.select()
            self.needop(")")
            out.append((n, cols, q))
            if not self.op(","):
                return out

    def select(self):
        q = {"with": [], "cores": [], "ops": [], "order": [], "limit": None, "offset": None}
        if self.iskw("with"):
            q["with"] = self.with_()
        q["cores"].append(self.core())
        while True:
            if self.kw("union", "all"):
                q["ops"].append("union_all")
            elif self.kw("union"):
                q["ops"].append("union")
            elif self.kw("except"):
                q["ops"].append("except")
            elif self.kw("intersect"):
                q["ops"].append("intersect")
            else:
                break
            q["cores"].append(self.core())
        if self.kw("order", "by"):
            while True:
                e = self.expr()
                d = "asc"
                if self.kw("collate"):
                    self.name()
                if self.kw("asc"):
                    pass
                elif self.kw("desc"):
                    d = "desc"
                nulls = None
                if self.kw("nulls"):
                    nulls = "first" if self.kw("first") else (self.need("last") or "last")
                q["order"].append((e, d, nulls or ("first" if d == "asc" else "last")))
                if not self.op(","):
                    break
        if self.kw("limit"):
            q["limit"] = self.expr()
            if self.kw("offset"):
                q["offset"] = self.expr()
            elif self.op(","):
                q["offset"] = q["limit"]
                q["limit"] = self.expr()
        return q

    def core(self):
        if self.kw("values"):
            rows = [self.tuple_()]
            while self.op(","):
                rows.append(self.tuple_())
            return {"values": rows}
        self.need("select")
        c = {"distinct": False, "cols": [], "from": None, "where": None, "group": [], "having": None}
        if self.kw("distinct"):
            c["distinct"] = True
        else:
            self.kw("all")
        while True:
            c["cols"].append(self.rescol())
            if not self.op(","):
                break
        if self.kw("from"):
            c["from"] = self.from_()
        if self.kw("where"):
            c["where"] = self.expr()
        if self.kw("group", "by"):
            c["group"].append(self.expr())
            while self.op(","):
                c["group"].append(self.expr())
            if self.kw("having"):
                c["having"] = self.expr()
        return c

    def tuple_(self):
        self.needop("(")
        r = [self.expr()]
        while self.op(","):
            r.append(self.expr())
        self.needop(")")
        return r

    def rescol(self):
        if self.op("*"):
            return ("star", None, None)
        if self.peek()[0] in ("id", "qid") and self.peek(1) == ("op", ".") and self.peek(2) == ("op", "*"):
            t = self.name()
            self.i += 2
            return ("star", t, None)
        start = self.i
        e = self.expr()
        alias = None
        if self.kw("as"):
            alias = self.name()
        elif self.peek()[0] in ("id", "qid", "str"):
            alias = self.name()
        return ("expr", e, alias)

    def from_(self):
        left = self.table()
        while True:
            kind = None
            if self.op(","):
                kind = "cross"
            elif self.kw("cross"):
                self.need("join")
                kind = "cross"
            elif self.kw("inner"):
                self.need("join")
                kind = "inner"
            elif self.kw("left"):
                self.kw("outer")
                self.need("join")
                kind = "left"
            elif self.kw("join"):
                kind = "inner"
            else:
                return left
            right = self.table()
            cond = None
            if self.kw("on"):
                cond = self.expr()
            elif self.kw("using"):
                self.needop("(")
                cols = [self.name()]
                while self.op(","):
                    cols.append(self.name())
                self.needop(")")
                cond = ("using", cols)
            left = ("join", kind, left, right, cond)

    def table(self):
        if self.op("("):
            if self.iskw("select") or self.iskw("with") or self.iskw("values"):
                q = self.select()
                self.needop(")")
                src = ("sub", q)
            else:
                f = self.from_()
                self.needop(")")
                return f
        else:
            n = self.name()
            if self.op("("):
                args = []
                if not self.isop(")"):
                    args.append(self.expr())
                    while self.op(","):
                        args.append(self.expr())
                self.needop(")")
                src = ("tvf", n.lower(), args)
            else:
                src = ("table", n)
        alias = None
        if self.kw("as"):
            alias = self.name()
        elif self.peek()[0] in ("id", "qid"):
            alias = self.name()
        return ("src", src, alias)

    def returning(self):
        if not self.kw("returning"):
            return None
        cols = [self.rescol()]
        while self.op(","):
            cols.append(self.rescol())
        return cols

    def insert(self, ctes):
        orc = None
        if self.kw("replace"):
            orc = "replace"
        else:
            self.need("insert")
            if self.kw("or"):
                orc = self.nxt()[1].lower()
        self.need("into")
        t = self.name()
        alias = None
        if self.kw("as"):
            alias = self.name()
        cols = None
        if self.op("("):
            cols = [self.name()]
            while self.op(","):
                cols.append(self.name())
            self.needop(")")
        if self.kw("default"):
            self.need("values")
            src = None
        else:
            src = self.select()
            src["with"] = ctes + src["with"]
        upsert = None
        if self.kw("on"):
            self.need("conflict")
            tgt = None
            if self.op("("):
                tgt = [self.name()]
                while self.op(","):
                    tgt.append(self.name())
                self.needop(")")
            self.need("do")
            if self.kw("nothing"):
                upsert = ("nothing", tgt)
            else:
                self.need("update")
                self.need("set")
                upsert = ("update", tgt, self.sets(), self.expr() if self.kw("where") else None)
        ret = self.returning()
        return ("insert", {"or": orc, "table": t, "alias": alias, "cols": cols, "src": src, "upsert": upsert, "ret": ret})

    def sets(self):
        out = []
        while True:
            if self.op("("):
                ns = [self.name()]
                while self.op(","):
                    ns.append(self.name())
                self.needop(")")
                self.needop("=")
                self.needop("(")
                es = [self.expr()]
                while self.op(","):
                    es.append(self.expr())
                self.needop(")")
                out += list(zip(ns, es))
            else:
                n = self.name()
                self.needop("=")
                out.append((n, self.expr()))
            if not self.op(","):
                return out

    def update(self, ctes):
        self.need("update")
        orc = None
        if self.kw("or"):
            orc = self.nxt()[1].lower()
        t = self.name()
        alias = self.name() if self.kw("as") else None
        self.need("set")
        sets = self.sets()
        frm = self.from_() if self.kw("from") else None
        w = self.expr() if self.kw("where") else None
        return ("update", {"or": orc, "table": t, "alias": alias, "sets": sets, "from": frm, "where": w, "ret": self.returning(), "with": ctes})

    def delete(self, ctes):
        self.need("delete")
        self.need("from")
        t = self.name()
        alias = self.name() if self.kw("as") else None
        w = self.expr() if self.kw("where") else None
        return ("delete", {"table": t, "alias": alias, "where": w, "ret": self.returning(), "with": ctes})

    # -- expressions
    def expr(self):
        return self.or_()

    def or_(self):
        a = self.and_()
        while self.kw("or"):
            a = ("bin", "or", a, self.and_())
        return a

    def and_(self):
        a = self.not_()
        while self.kw("and"):
            a = ("bin", "and", a, self.not_())
        return a

    def not_(self):
        if self.iskw("not") and not self.iskw("not", "exists"):
            self.nxt()
            return ("un", "not", self.not_())
        return self.eq()

    def eq(self):
        a = self.cmp()
        while True:
            if self.op("=") or self.op("=="):
                a = ("bin", "=", a, self.cmp())
            elif self.op("<>") or self.op("!="):
                a = ("bin", "<>", a, self.cmp())
            elif self.kw("is", "not", "null"):
                a = ("un", "notnull", a)
            elif self.kw("is", "null"):
                a = ("un", "isnull", a)
            elif self.kw("is", "not"):
                self.kw("distinct", "from") and None
                a = ("bin", "isnot", a, self.cmp())
            elif self.kw("is"):
                a = ("bin", "is", a, self.cmp())
            elif self.kw("isnull"):
                a = ("un", "isnull", a)
            elif self.kw("notnull"):
                a = ("un", "notnull", a)
            elif self.kw("not", "null"):
                a = ("un", "notnull", a)
            elif self.kw("between"):
                lo = self.cmp()
                self.need("and")
                hi = self.cmp()
                a = ("bin", "and", ("bin", ">=", a, lo), ("bin", "<=", a, hi))
            elif self.iskw("in") or self.iskw("not", "in"):
                neg = self.kw("not")
                self.need("in")
                if self.op("("):
                    if self.iskw("select") or self.iskw("with") or self.iskw("values"):
                        q = self.select()
                        self.needop(")")
                        r = ("in_sub", a, q)
                    else:
                        xs = []
                        if not self.isop(")"):
                            xs.append(self.expr())
                            while self.op(","):
                                xs.append(self.expr())
                        self.needop(")")
                        r = ("in_list", a, xs)
                else:
                    n = self.name()
                    r = ("in_sub", a, {"with": [], "cores": [{"distinct": False, "cols": [("star", None, None)], "from": ("src", ("table", n), None), "where": None, "group": [], "having": None}], "ops": [], "order": [], "limit": None, "offset": None})
                a = ("un", "not", r) if neg else r
            elif self.iskw("like") or self.iskw("not", "like") or self.iskw("glob"):
                raise SqlUnsupported("LIKE/GLOB")
            else:
                return a

    def cmp(self):
        a = self.bits()
        while True:
            for o in ("<=", ">=", "<", ">"):
                if self.op(o):
                    a = ("bin", o, a, self.bits())
                    break
            else:
                return a

    def bits(self):
        a = self.add()
        while True:
            for o in ("<<", ">>", "&", "|"):
                if self.op(o):
                    a = ("bin", o, a, self.add())
                    break
            else:
                return a

    def add(self):
        a = self.mul()
        while True:
            for o in ("+", "-"):
                if self.op(o):
                    a = ("bin", o, a, self.mul())
                    break
            else:
                return a

    def mul(self):
        a = self.cat()
        while True:
            for o in ("*", "/", "%"):
                if self.op(o):
                    a = ("bin", o, a, self.cat())
                    break
            else:
                return a

    def cat(self):
        a = self.unary()
        while self.isop("||") or self.isop("->") or self.isop("->>"):
            o = self.nxt()[1]
            a = ("bin", o, a, self.unary())
        return a

    def unary(self):
        if self.op("-"):
            return ("un", "neg", self.unary())
        if self.op("+"):
            return self.unary()
        if self.op("~"):
            return ("un", "~", self.unary())
        return self.primary()

    def primary(self):
        k, v = self.peek()
        if k == "num":
            self.nxt()
            if "." in v or ("e" in v.lower() and not v.startswith("0x")):
                return ("real", float(v))
            return ("int", int(v, 0))
        if k == "str":
            self.nxt()
            return ("str", v)
        if k == "blob":
            self.nxt()
            return ("blob", bytes.fromhex(v[2:-1]))
        if k == "param":
            self.nxt()
            if v == "?":
                r = ("param", None, self.anon)
                self.anon += 1
                return r
            return ("param", v[1:], None)
        if self.kw("null"):
            return ("null",)
        if self.kw("true"):
            return ("int", 1)
        if self.kw("false"):
            return ("int", 0)
        if self.kw("not"):
            self.need("exists")
            self.needop("(")
            q = self.select()
            self.needop(")")
            return ("un", "not", ("exists", q))
        if self.kw("exists"):
            self.needop("(")
            q = self.select()
            self.needop(")")
            return ("exists", q)
        if self.kw("cast"):
            self.needop("(")
            e = self.expr()
            self.need("as")
            ty = self.name()
            self.needop(")")
            return ("cast", e, ty.upper())
        if self.kw("case"):
            base = None
            if not self.iskw("when"):
                base = self.expr()
            arms = []
            while self.kw("when"):
                c = self.expr()
                self.need("then")
                arms.append((c, self.expr()))
            els = self.expr() if self.kw("else") else ("null",)
            self.need("end")
            return ("case", base, arms, els)
        if self.op("("):
            if self.iskw("select") or self.iskw("with"):
                q = self.select()
                self.needop(")")
                return ("scalar", q)
            e = self.expr()
            if self.isop(","):
                xs = [e]
                while self.op(","):
                    xs.append(self.expr())
                self.needop(")")
                return ("row", xs)
            self.needop(")")
            return e
        n = self.name()
        if self.op("("):
            star = False
            distinct = False
            args = []
            if self.op("*"):
                star = True
            elif not self.isop(")"):
                distinct = self.kw("distinct")
                args.append(self.expr())
                while self.op(","):
                    args.append(self.expr())
            self.needop(")")
            filt = None
            if self.iskw("filter"):
                self.nxt()
                self.needop("(")
                self.need("where")
                filt = self.expr()
                self.needop(")")
            if self.kw("over"):
                self.needop("(")
                order = []
                if not self.isop(")"):
                    self.need("order", "by")
                    while True:
                        e = self.expr()
                        d = "desc" if self.kw("desc") else (self.kw("asc") and "asc" or "asc")
                        nulls = None
                        if self.kw("nulls"):
                            nulls = "first" if self.kw("first") else (self.need("last") or "last")
                        order.append((e, d, nulls or ("first" if d == "asc" else "last")))
                        if not self.op(","):
                            break
                self.needop(")")
                return ("window", n.lower(), args, order)
            return ("fn", n.lower(), args, {"star": star, "distinct": distinct, "filter": filt})
        if self.op("."):
            c = self.name()
            return ("col", n, c)
        return ("col", None, n)


def parse_script(sql):
    return P(sql).script()


# --------------------------------------------------------------------------
# Schema: obtained by letting SQLite itself run the repository's migrations.

def migration_files(repo):
    fs = sorted(glob.glob(os.path.join(repo, "opsqueue/migrations/*.sql")), key=os.path.basename)
    return [f for f in fs if not f.endswith(".down.sql")]


def load_schema(repo="/repo"):
    c = sqlite3.connect(":memory:")
    for f in migration_files(repo):
        c.executescript(open(f).read())
    return schema_of(c)


def schema_of(c):
    tables = {}
    for name, sql in c.execute("select name, sql from sqlite_master where type='table' and name not like 'sqlite_%'").fetchall():
        cols = []
        for cid, cn, ty, notnull, dflt, pk, hidden in c.execute(f'PRAGMA table_xinfo("{name}")'):
            gen = None
            if hidden in (2, 3):
                m = re.search(re.escape(cn) + r'\b[^,]*?GENERATED\s+ALWAYS\s+AS\s*\(', sql, re.I | re.S)
                if not m:
                    m = re.search(re.escape(cn) + r'\b[^,]*?\bAS\s*\(', sql, re.I | re.S)
                j = m.end()
                depth = 1
                k = j
                while depth:
                    depth += {"(": 1, ")": -1}.get(sql[k], 0)
                    k += 1
                gen = sql[j:k - 1]
            cols.append({"name": cn, "type": (ty or "").upper(), "notnull": bool(notnull), "default": dflt, "pk": pk, "generated": gen})
        uniq = []
        for r in c.execute(f'PRAGMA index_list("{name}")').fetchall():
            if r[2]:
                uniq.append([x[2] for x in c.execute(f'PRAGMA index_info("{r[1]}")')])
        pk = [x["name"] for x in sorted((x for x in cols if x["pk"]), key=lambda x: x["pk"])]
        if pk and pk not in uniq:
            uniq.append(pk)
        fks = c.execute(f'PRAGMA foreign_key_list("{name}")').fetchall()
        trig = c.execute("select name from sqlite_master where type='trigger' and tbl_name=?", (name,)).fetchall()
        checks = bool(re.search(r"\bCHECK\s*\(", sql, re.I))
        tables[name] = {"cols": cols, "unique": uniq, "fks": fks, "triggers": [t[0] for t in trig], "check": checks,
                        "indexes": [(r[0], r[1]) for r in c.execute("select name, sql from sqlite_master where type='index' and tbl_name=?", (name,))]}
    return tables
