"""Source-to-source: sequentialise async Rust so that it can be executed symbolically.

`async fn f` -> `fn f`; `e.await` -> `e`; `async [move] { .. }` -> `([move] || { .. })()`, except as the
direct argument of a spawn call, where it stays a closure value; `Box::pin(e)` -> `e`.
Sound for code whose futures are awaited where they are created; text layout (line numbers) is kept.
"""
import re, os, sys

TOK = re.compile(r"""
  (?P<lc>//[^\n]*)
 |(?P<bc>/\*)
 |(?P<raw>(?:b|c)?r(?P<h>\#*)")
 |(?P<str>(?:b|c)?")
 |(?P<chr>b?'(?:\\(?:x[0-9a-fA-F]{2}|u\{[^}]*\}|.)|[^\\'\n])')
 |(?P<life>'[A-Za-z_]\w*)
 |(?P<id>r\#[A-Za-z_]\w*|[A-Za-z_]\w*)
 |(?P<num>\d[\w]*(?:\.\d[\w]*)?)
 |(?P<ws>\s+)
 |(?P<p>.)
""", re.X | re.S)


def lex(s):
    i, out = 0, []
    while i < len(s):
        m = TOK.match(s, i)
        k = m.lastgroup
        if k == "h":
            k = "raw"
        if m.group("bc"):
            d, j = 1, i + 2
            while d:
                a, b = s.find("/*", j), s.find("*/", j)
                if b < 0:
                    raise ValueError("unterminated comment")
                if 0 <= a < b:
                    d, j = d + 1, a + 2
                else:
                    d, j = d - 1, b + 2
            out.append(("ws", s[i:j])); i = j; continue
        if m.group("raw"):
            j = s.index('"' + m.group("h"), m.end()) + 1 + len(m.group("h"))
            out.append(("str", s[i:j])); i = j; continue
        if m.group("str"):
            j = m.end()
            while s[j] != '"':
                j += 2 if s[j] == "\\" else 1
            out.append(("str", s[i:j + 1])); i = j + 1; continue
        if m.group("lc"):
            k = "ws"
        out.append((k, m.group(0))); i = m.end()
    return out


def plain(lit):
    """only `{}`, `{name}` and escaped braces"""
    x = re.sub(r"\{\{|\}\}", "", lit)
    return "{" not in re.sub(r"\{\w*\}", "", x)


def deasync(src):
    t = lex(src)
    n = len(t)
    sig = [i for i in range(n) if t[i][0] != "ws"]
    pos = {x: k for k, x in enumerate(sig)}
    txt = [x[1] for x in t]
    def nxt(i, d=1):
        k = pos[i] + d
        return sig[k] if 0 <= k < len(sig) else None
    def at(i):
        return t[i][1] if i is not None else ""
    match = {}
    st = []
    for i in sig:
        c = t[i][1] if t[i][0] == "p" else ""
        if c in ("(", "[", "{"):
            st.append(i)
        elif c in (")", "]", "}"):
            match[st.pop()] = i
    for i in sig:
        k, c = t[i]
        if k != "id":
            continue
        if c == "format" and at(nxt(i)) == "!" and at(nxt(i, 2)) == "(" and t[nxt(i, 3)][0] == "str" and at(nxt(i, -1)) != ":" and plain(at(nxt(i, 3))):
            # same text, without the formatting machinery
            txt[i] = "::sqlx::vformat"
        elif c == "await" and at(nxt(i, -1)) == ".":
            txt[i] = ""; txt[nxt(i, -1)] = ""
        elif c == "async":
            j = nxt(i)
            mv = ""
            if at(j) == "move":
                mv = "move "
                if at(nxt(j)) == "{":
                    j = nxt(j)
            if at(j) == "{":
                # direct argument of spawn(...)?
                p = nxt(i, -1)
                lazy = False
                if at(p) == "(":
                    f = at(nxt(p, -1))
                    lazy = f in ("spawn", "spawn_local")
                txt[i] = ("" if lazy else "(") + mv + "||"
                for x in range(i + 1, j):
                    if t[x][1] == "move":
                        txt[x] = ""
                txt[match[j]] = "}" if lazy else "})()"
            else:
                txt[i] = ""
        elif c == "Box" and at(nxt(i)) == ":" and at(nxt(i, 2)) == ":" and at(nxt(i, 3)) == "pin" and at(nxt(i, 4)) == "(":
            txt[i] = "::core::convert::identity"
            txt[nxt(i)] = txt[nxt(i, 2)] = txt[nxt(i, 3)] = ""
        elif c in ("BoxFuture", "LocalBoxFuture") and at(nxt(i)) == "<":
            # BoxFuture<'a, T> -> T
            j, d, comma = nxt(i), 0, None
            k2 = j
            while True:
                x = at(k2)
                if x == "<" : d += 1
                elif x == ">" and at(nxt(k2, -1)) not in ("-", "="): d -= 1
                elif x in "([{" and t[k2][0] == "p": k2 = match[k2]
                elif x == "," and d == 1 and comma is None: comma = k2
                if d == 0: break
                k2 = nxt(k2)
            # drop a path prefix in front
            b = i
            while at(nxt(b, -1)) == ":" and at(nxt(b, -2)) == ":":
                txt[nxt(b, -1)] = txt[nxt(b, -2)] = ""
                if nxt(b, -3) is not None and t[nxt(b, -3)][0] == "id":
                    b = nxt(b, -3); txt[b] = ""
                else:
                    break
            for q in range(i, (comma if comma is not None else j) + 1): txt[q] = ""
            txt[k2] = ""
        elif c == "impl" and at(nxt(i)) == "Future" and at(nxt(i, 2)) == "<" and at(nxt(i, 3)) == "Output" and at(nxt(i, 4)) == "=":
            j, d = nxt(i, 2), 0
            k2 = j
            while True:
                x = at(k2)
                if x == "<" : d += 1
                elif x == ">" and at(nxt(k2, -1)) not in ("-", "="): d -= 1
                elif x in "([{" and t[k2][0] == "p": k2 = match[k2]
                if d == 0: break
                k2 = nxt(k2)
            for q in range(i, nxt(i, 4) + 1): txt[q] = ""
            txt[k2] = ""
            e = k2
            # trailing bounds: + Send + 'a
            while at(nxt(e)) == "+":
                txt[nxt(e)] = ""; e = nxt(e, 2); txt[e] = ""
    return "".join(txt)


def tree(src, dst, write):
    for root, dirs, files in os.walk(src):
        dirs[:] = [d for d in dirs if d not in ("target", ".git")]
        for f in files:
            p = os.path.join(root, f)
            q = os.path.join(dst, os.path.relpath(p, src))
            s = open(p, encoding="utf-8", errors="surrogateescape").read()
            write(q, deasync(s) if f.endswith(".rs") else s)


if __name__ == "__main__":
    print(deasync(open(sys.argv[1]).read()))

