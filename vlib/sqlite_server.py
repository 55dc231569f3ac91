"""Real SQLite behind the sqlx stand-in, for counterexample replay (see stubs/sqlx/src/native.rs)."""
import sys, os, sqlite3, re
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from sqlparse import migration_files
repo = sys.argv[1]
con = sqlite3.connect(":memory:", isolation_level=None)
con.create_function("julianday", 1, lambda x: x, deterministic=True)
for f in migration_files(repo):
    con.executescript(open(f).read())
tables = [r[0] for r in con.execute("select name from sqlite_master where type='table' and name not like 'sqlite_%'")]
depth = 0

def dec(s):
    return None if s[0] == "N" else int(s[1:]) if s[0] == "I" else bytes.fromhex(s[1:]).decode() if s[0] == "T" else bytes.fromhex(s[1:])
def enc(v):
    if v is None: return "N"
    if isinstance(v, int): return f"I{v}"
    if isinstance(v, float): return f"I{int(v)}"
    if isinstance(v, str): return "T" + v.encode().hex()
    return "B" + bytes(v).hex()
def split(sql):
    out, cur = [], ""
    for part in re.split(r"(;)", sql):
        cur += part
        if part == ";" and sqlite3.complete_statement(cur):
            out.append(cur); cur = ""
    if cur.strip(): out.append(cur)
    return [s for s in out if s.strip().strip(";").strip()]
def nanon(s):
    return len(re.findall(r"\?(?!\d)", re.sub(r"'[^']*'", "''", s)))
for line in sys.stdin:
    w = line.rstrip("\n").split(" ")
    o = []
    try:
        if w[0] == "RESET":
            for t in tables: con.execute(f"delete from {t}")
        elif w[0] == "PUT":
            kv = [x.split("=", 1) for x in w[2:]]
            con.execute(f"insert into {w[1]} ({','.join(k for k, _ in kv)}) values ({','.join('?' * len(kv))})", [dec(v) for _, v in kv])
        elif w[0] == "DUMP":
            for t in tables:
                cols = [r[1] for r in con.execute(f"pragma table_xinfo({t})")]
                for r in con.execute(f"select {','.join(cols)} from {t}"):
                    o.append(t + " " + " ".join(enc(v) for v in r))
        elif w[0] == "TX":
            if w[1] == "begin":
                con.execute("begin" if depth == 0 else f"savepoint _sqlx_{depth}"); depth += 1
            elif w[1] == "commit":
                depth -= 1; con.execute("commit" if depth == 0 else f"release _sqlx_{depth}")
            else:
                depth -= 1
                if depth == 0: con.execute("rollback")
                else: con.execute(f"rollback to _sqlx_{depth}"); con.execute(f"release _sqlx_{depth}")
        elif w[0] == "SPLIT":
            off = 0
            for s in split(bytes.fromhex(w[1]).decode()):
                k = s.strip().split()[0].lower()
                o.append(f"{k} {off} {s.encode().hex()}"); off += nanon(s)
        elif w[0] == "EXEC":
            one, off, sql = w[1] == "1", int(w[2]), bytes.fromhex(w[3]).decode()
            args = [dec(x) for x in w[4:]]
            n = [off]
            sql2 = re.sub(r"\$(\d+)|\?(\d+)", lambda m: ":p" + (m.group(1) or m.group(2)), sql)
            def rep(m):
                n[0] += 1
                return f":p{n[0]}"
            sql2 = re.sub(r"\?", rep, sql2)
            cur = con.execute(sql2, {f"p{i+1}": a for i, a in enumerate(args) if f":p{i+1}" in sql2})
            rows = cur.fetchall()
            for r in (rows[:1] if one else rows):
                o.append("ROW " + " ".join(enc(v) for v in r))
            if cur.rowcount > 0: o.append(f"AFF {cur.rowcount}")
    except sqlite3.IntegrityError as e:
        o.append(f"ERR constraint {e}")
    except Exception as e:
        o.append(f"ERR {type(e).__name__} {e}")
    for l in o: print(l)
    print("END", flush=True)
