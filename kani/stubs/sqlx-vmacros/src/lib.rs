//! query!/query_as!/query_scalar!: the SQL text is compiled by vlib/sqlgen.py.
use proc_macro::{TokenStream, TokenTree};
use std::io::Write;
use std::process::{Command, Stdio};

fn lit_str(s: &str) -> Option<String> {
    let s = s.trim();
    if let Some(r) = s.strip_prefix('r') {
        let h = r.chars().take_while(|c| *c == '#').count();
        return Some(r[h + 1..r.len() - 1 - h].to_string());
    }
    if !s.starts_with('"') { return None; }
    let inner: Vec<char> = s[1..s.len() - 1].chars().collect();
    let mut out = String::new();
    let mut i = 0;
    while i < inner.len() {
        if inner[i] != '\\' { out.push(inner[i]); i += 1; continue; }
        i += 1;
        match inner[i] {
            'n' => out.push('\n'), 't' => out.push('\t'), 'r' => out.push('\r'), '0' => out.push('\0'),
            '\n' => { while i + 1 < inner.len() && inner[i + 1].is_whitespace() { i += 1; } }
            c => out.push(c),
        }
        i += 1;
    }
    Some(out)
}
fn json(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() { match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"), '\r' => o.push_str("\\r"), '\t' => o.push_str("\\t"), c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)), c => o.push(c) } }
    o.push('"'); o
}
fn split(ts: TokenStream) -> Vec<Vec<TokenTree>> {
    let mut out = vec![vec![]];
    let mut depth = 0i32;
    let mut prev_dash = false;
    for t in ts {
        if let TokenTree::Punct(p) = &t {
            let c = p.as_char();
            if c == '<' { depth += 1 } else if c == '>' && depth > 0 && !prev_dash { depth -= 1 }
            prev_dash = c == '-' || c == '=';
            if c == ',' && depth == 0 { out.push(vec![]); continue; }
        } else { prev_dash = false; }
        out.last_mut().unwrap().push(t);
    }
    if out.last().unwrap().is_empty() { out.pop(); }
    out
}
fn run(kind: &str, ts: TokenStream) -> TokenStream {
    let mut parts = split(ts).into_iter();
    let mut ty = String::new();
    if kind == "query_as" { ty = parts.next().unwrap().into_iter().collect::<TokenStream>().to_string(); }
    let mut sql = String::new();
    for t in parts.next().expect("sql") {
        match t {
            TokenTree::Literal(l) => sql.push_str(&lit_str(&l.to_string()).expect("string literal")),
            TokenTree::Punct(p) if p.as_char() == '+' => {}
            TokenTree::Group(g) => { for t in g.stream() { if let TokenTree::Literal(l) = t { sql.push_str(&lit_str(&l.to_string()).expect("string literal")) } } }
            _ => panic!("VERIF-UNSUPPORTED-SQL: not a literal"),
        }
    }
    let args: Vec<String> = parts.map(|p| p.into_iter().collect::<TokenStream>().to_string()).collect();
    let req = format!("{{\"kind\":{},\"ty\":{},\"sql\":{},\"nargs\":{},\"args\":[{}]}}", json(kind), json(&ty), json(&sql), args.len(), args.iter().map(|a| json(a)).collect::<Vec<_>>().join(","));
    let gen_dir = std::env::var("VERIF_GEN").expect("VERIF_GEN");
    let mut ch = Command::new("python3").arg(std::env::var("VERIF_SQLGEN").expect("VERIF_SQLGEN")).arg(format!("{gen_dir}/schema.json")).stdin(Stdio::piped()).stdout(Stdio::piped()).spawn().expect("python3");
    ch.stdin.take().unwrap().write_all(req.as_bytes()).unwrap();
    let o = ch.wait_with_output().unwrap();
    assert!(o.status.success(), "sqlgen failed on {sql}");
    String::from_utf8(o.stdout).unwrap().parse().unwrap_or_else(|e| panic!("bad generated code: {e:?}"))
}
#[proc_macro] pub fn query(ts: TokenStream) -> TokenStream { run("query", ts) }
#[proc_macro] pub fn query_as(ts: TokenStream) -> TokenStream { run("query_as", ts) }
#[proc_macro] pub fn query_scalar(ts: TokenStream) -> TokenStream { run("query_scalar", ts) }
#[proc_macro] pub fn migrate(_ts: TokenStream) -> TokenStream { "::sqlx::migrate::Migrator::new()".parse().unwrap() }

/// derive(FromRow) for structs with named fields: by column name.
#[proc_macro_derive(FromRow, attributes(sqlx))]
pub fn from_row(ts: TokenStream) -> TokenStream {
    let mut it = ts.into_iter().peekable();
    let mut name = String::new();
    let mut fields = vec![];
    while let Some(t) = it.next() {
        match t {
            TokenTree::Ident(i) if i.to_string() == "struct" => { name = it.next().unwrap().to_string(); }
            TokenTree::Group(g) if !name.is_empty() && g.delimiter() == proc_macro::Delimiter::Brace => {
                for f in split(g.stream()) {
                    let mut id = String::new();
                    for t in f { match t { TokenTree::Ident(i) => id = i.to_string(), TokenTree::Punct(p) if p.as_char() == ':' => break, _ => {} } }
                    fields.push(id);
                }
            }
            _ => {}
        }
    }
    let body: String = fields.iter().map(|f| format!("{f}: r.get_named(\"{f}\")?,")).collect();
    format!("impl ::sqlx::FromRow for {name} {{ fn from_row(r: &::sqlx::rt::DynRow) -> ::sqlx::Result<Self> {{ Ok({name} {{ {body} }}) }} }}").parse().unwrap()
}

/// format! for plain placeholders: appends the pieces without the formatting machinery
#[proc_macro]
pub fn vformat(ts: TokenStream) -> TokenStream {
    let args = split(ts);
    let lit = lit_str(&args[0][0].to_string()).expect("literal");
    let mut named: Vec<(String, String)> = vec![];
    let mut pos: Vec<String> = vec![];
    for a in &args[1..] {
        if a.is_empty() { continue; }
        let eq = a.len() > 2 && matches!((&a[0], &a[1], &a[2]), (TokenTree::Ident(_), TokenTree::Punct(p), q) if p.as_char() == '=' && !matches!(q, TokenTree::Punct(q) if q.as_char() == '='));
        let st = |x: &[TokenTree]| x.iter().cloned().collect::<TokenStream>().to_string();
        if eq { named.push((a[0].to_string(), st(&a[2..]))); } else { pos.push(st(a)); }
    }
    let mut out = String::from("{ #[allow(unused_imports)] use ::sqlx::show::{Fast as _, Slow as _}; let mut __s = ::std::string::String::with_capacity(");
    let mut body = String::new();
    let mut cur = String::new();
    let mut n = 0;
    let c: Vec<char> = lit.chars().collect();
    let (mut i, mut next) = (0, 0);
    let flush = |cur: &mut String, body: &mut String, n: &mut usize| { if !cur.is_empty() { *n += cur.len(); body.push_str(&format!("__s.push_str({});", json_rust(cur))); cur.clear(); } };
    while i < c.len() {
        if c[i] == '{' && c.get(i + 1) == Some(&'{') { cur.push('{'); i += 2; }
        else if c[i] == '}' && c.get(i + 1) == Some(&'}') { cur.push('}'); i += 2; }
        else if c[i] == '{' {
            let j = (i..c.len()).find(|j| c[*j] == '}').unwrap();
            let name: String = c[i + 1..j].iter().collect();
            flush(&mut cur, &mut body, &mut n);
            let e = if name.is_empty() { next += 1; pos[next - 1].clone() } else if let Ok(k) = name.parse::<usize>() { pos[k].clone() } else { named.iter().find(|x| x.0 == name).map(|x| x.1.clone()).unwrap_or(name) };
            body.push_str(&format!("(&::sqlx::show::W(&({e}))).show(&mut __s);"));
            n += 24;
            i = j + 1;
        } else { cur.push(c[i]); i += 1; }
    }
    flush(&mut cur, &mut body, &mut n);
    out.push_str(&format!("{n}); {body} __s }}"));
    out.parse().unwrap()
}
fn json_rust(s: &str) -> String { format!("{s:?}") }
