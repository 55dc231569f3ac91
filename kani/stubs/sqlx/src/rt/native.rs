//! Counterexample replay: execute the SQL text on a real SQLite (python3 process).
use super::*;
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};
use std::sync::Mutex;
struct P { _c: Child, i: ChildStdin, o: BufReader<ChildStdout> }
static PROC: Mutex<Option<P>> = Mutex::new(None);
pub fn on() -> bool { std::env::var("VERIF_SQLITE").is_ok() }
fn ask(line: &str) -> Vec<String> {
    let mut g = PROC.lock().unwrap();
    if g.is_none() {
        let mut c = Command::new("python3").arg(std::env::var("VERIF_SQLITE").unwrap()).arg(std::env::var("VERIF_REPO").unwrap()).stdin(Stdio::piped()).stdout(Stdio::piped()).spawn().expect("python3");
        let i = c.stdin.take().unwrap();
        let o = BufReader::new(c.stdout.take().unwrap());
        *g = Some(P { _c: c, i, o });
    }
    let p = g.as_mut().unwrap();
    writeln!(p.i, "{line}").unwrap();
    p.i.flush().unwrap();
    let mut out = vec![];
    loop { let mut l = String::new(); if p.o.read_line(&mut l).unwrap() == 0 { panic!("VERIF-MODEL: sqlite process died"); } let l = l.trim_end().to_string(); if l == "END" { return out; } if l.starts_with("ERR") && !line.starts_with("EXEC") { panic!("VERIF-MODEL: sqlite: {line}: {l}"); } out.push(l); }
}
fn hex(b: &[u8]) -> String { b.iter().map(|x| format!("{x:02x}")).collect() }
fn unhex(s: &str) -> Vec<u8> { (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect() }
fn val(s: &str) -> Val { match s.as_bytes()[0] { b'N' => Val::Null, b'I' => Val::Int(s[1..].parse().unwrap()), b'T' => Val::Text(unhex(&s[1..])), _ => Val::Blob(unhex(&s[1..])) } }
fn arg(c: Cell, t: u8) -> String { if c.null { "N".into() } else { match t { 1 => format!("T{}", hex(&unpack(c))), 2 => format!("B{}", hex(&unpack(c))), _ => format!("I{}", c.v) } } }
pub fn load(db: &Db) {
    if !on() { return; }
    ask("RESET");
    db.each(&mut |t, k, cells| {
        let cols = TABLES[k].1;
        let mut l = format!("PUT {t}");
        for (j, c) in cols.iter().enumerate() {
            if c.2 { continue; }
            let ty = c.1.to_uppercase();
            let t = if ty.contains("CHAR") || ty.contains("TEXT") { 1 } else if ty.contains("BLOB") { 2 } else { 0 };
            l.push_str(&format!(" {}={}", c.0, arg(cells[j], t)));
        }
        ask(&l);
    });
    reload();
}
fn reload() {
    let mut db = Db::EMPTY;
    for l in ask("DUMP") {
        let mut w = l.split(' ');
        let t = w.next().unwrap();
        let cells: Vec<Cell> = w.map(|x| val(x).cell()).collect();
        db.put(t, &cells);
    }
    unsafe { DB = db; }
}
pub fn exec_tx(k: &str) { if on() { ask(&format!("TX {k}")); } }
pub fn run<O: OutRow, const N: usize>(sql: &str, a: &[Cell], one: bool, out: &mut RowBuf<O, N>) -> Result<u64> {
    script();
    let stmts = ask(&format!("SPLIT {}", hex(sql.as_bytes())));
    let args: String = a.iter().map(|c| format!(" {}", arg(*c, c.t))).collect();
    let mut aff = 0;
    for s in stmts {
        // "<kind> <offset of the first anonymous parameter> <hex>"
        let w: Vec<&str> = s.split(' ').collect();
        match w[0] { "savepoint" => { savepoint(); } "release" => {} _ => step(db())? }
        let r = ask(&format!("EXEC {} {} {}{}", one as u8, w[1], w[2], args));
        for l in r {
            if l.starts_with("ERR") { eprintln!("sqlite: {l}"); reload(); return Err(if l.contains("constraint") { Error::Constraint } else { Error::Fault }); }
            if let Some(n) = l.strip_prefix("AFF ") { aff += n.parse::<u64>().unwrap(); }
            if let Some(r) = l.strip_prefix("ROW ") { let v: Vec<Val> = r.split(' ').map(val).collect(); out.push(O::from_vals(&v)); }
        }
        reload();
        if w[0] == "release" { release(); }
        if one && out.len > 0 { break; }
    }
    stmt_end();
    Ok(aff)
}
pub fn json_pairs(t: &[u8]) -> Vec<(String, i64)> {
    // {"k":1,"l":2} with plain keys
    let s = String::from_utf8_lossy(t).to_string();
    let mut v = vec![];
    for p in s.trim_matches(|c| c == '{' || c == '}').split(',') { if let Some((k, x)) = p.rsplit_once(':') { v.push((k.trim().trim_matches('"').to_string(), x.trim().parse().unwrap_or(0))); } }
    v
}
