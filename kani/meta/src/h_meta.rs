//! MetaState: the counts are the starts minus the finishes, whatever runs at the same time.
use crate::metastate::*;
use vsym::assume;

#[derive(Clone, Copy)]
struct Op { inc: bool, key: bool, val: bool }
fn key(k: bool) -> &'static str { if k { "b" } else { "a" } }
fn val(v: bool) -> i64 { if v { 1 } else { 0 } }
fn act(ms: &MetaState, o: Op) { if o.inc { ms.increment(key(o.key), val(o.val)) } else { ms.decrement(key(o.key), val(o.val)) } }
fn ix(k: bool, v: bool) -> usize { (k as usize) * 2 + v as usize }
fn count(ms: &MetaState, k: bool, v: bool) -> Option<usize> { match ms.get(key(k)) { Some(f) => f.get(&val(v)), None => None } }
fn op(keys: bool, vals: bool) -> Op { Op { inc: vsym::bool_(), key: keys && vsym::bool_(), val: vals && vsym::bool_() } }
/// what is stored is exactly the counts `n` of (key, value)
fn exact(ms: &MetaState, n: [u8; 4], keys: bool, vals: bool) {
    for k in [false, true] { if k && !keys { continue; }
        let any = n[ix(k, false)] + n[ix(k, true)] > 0;
        for v in [false, true] { if v && !vals { continue; }
            let want = n[ix(k, v)];
            let got = count(ms, k, v);
            assert!(got.unwrap_or(0) == want as usize, "P14: a count is not the number of starts minus finishes");
            assert!(want > 0 || got.is_none(), "P14: a value nobody works on still has an entry");
        }
        assert!(ms.get(key(k)).is_some() == any, "P14: a key is listed although nobody works on it, or missing although somebody does");
    }
    let total = n[0] + n[1] + n[2] + n[3];
    assert!(ms.is_empty() == (total == 0), "P14: emptiness is wrong");
}
static mut MS: Option<*const MetaState> = None;
static mut OPS: [Op; 3] = [Op { inc: true, key: false, val: false }; 3];
fn ms() -> &'static MetaState { unsafe { &*MS.unwrap() } }
/// `pre`: starts already counted for value 0; then operations running at the same time, in every schedule
fn race(pre: u8, kinds: &[bool], keys: bool, vals: bool, at: [u8; 2]) {
    let ms = MetaState::new();
    let mut n = [0u8; 4];
    for _ in 0..pre { ms.increment("a", 0); n[0] += 1; }
    let mut ops = [Op { inc: true, key: false, val: false }; 3];
    for i in 0..kinds.len() { ops[i] = Op { inc: kinds[i], key: keys && kinds[i], val: vals && kinds[i] && vsym::bool_() }; }
    unsafe { MS = Some(&ms as *const MetaState); OPS = ops; }
    vsched::race(|| act(&ms, Op { inc: kinds[0], ..ops[0] }), Some(match kinds[1] { true => inc1, false => dec1 }), if kinds.len() > 2 { Some(match kinds[2] { true => inc2, false => dec2 }) } else { None }, at);
    for i in 0..kinds.len() { let j = ix(ops[i].key, ops[i].val); if ops[i].inc { n[j] += 1 } else { n[j] -= 1 } }
    exact(&ms, n, keys, vals);
    vsym::witness!(true, "a schedule");
    std::mem::forget(ms);
}
fn inc1() { unsafe { let o = OPS[1]; ms().increment(key(o.key), val(o.val)) } }
fn dec1() { unsafe { let o = OPS[1]; ms().decrement(key(o.key), val(o.val)) } }
fn inc2() { unsafe { let o = OPS[2]; ms().increment(key(o.key), val(o.val)) } }
fn dec2() { unsafe { let o = OPS[2]; ms().decrement(key(o.key), val(o.val)) } }
fn text_is(s: &str, a: &[u8]) -> bool { let b = s.as_bytes(); if b.len() != a.len() { return false; } for i in 0..a.len() { if a[i] != b[i] { return false; } } true }
crate::harnesses! {
    race_fresh(10) { vsched::schedules(6, 1, |at| race(0, &[true, true], false, true, at)); }
    /// the key exists already; two starts of a value that is new under it
    race_value(10) { vsched::schedules(6, 1, |at| {
        let ms = MetaState::new();
        ms.increment("a", 0);
        unsafe { MS = Some(&ms as *const MetaState); }
        vsched::race(|| ms.increment("a", 1), Some(|| self::ms().increment("a", 1)), None, at);
        exact(&ms, [1, 2, 0, 0], false, true);
        vsym::witness!(true, "a schedule");
        std::mem::forget(ms);
    }); }
    race_last(10) { vsched::schedules(7, 1, |at| race(1, &[false, true], false, true, at)); }
    race_two(10) { vsched::schedules(8, 1, |at| race(2, &[false, false], false, false, at)); }
    race_key(10) { vsched::schedules(6, 1, |at| race(1, &[false, true], true, false, at)); }
    race_three(10) { vsched::schedules(5, 6, |at| race(2, &[false, true, false], false, false, at)); }
    /// two threads that each start and finish the same value
    race_pairs(12) { vsched::schedules(9, 1, |at| {
        let ms = MetaState::new();
        unsafe { MS = Some(&ms as *const MetaState); }
        vsched::race(|| { ms.increment("a", 0); ms.decrement("a", 0); }, Some(|| { self::ms().increment("a", 0); self::ms().decrement("a", 0); }), None, at);
        exact(&ms, [0; 4], false, true);
        vsym::witness!(true, "a schedule");
        std::mem::forget(ms);
    }); }
    /// sequences of starts and finishes, paired or not, and the text handed to SQLite
    sequence(10) {
        let v = vsym::bool_(); let w = vsym::bool_();
        let ms = MetaState::new();
        ms.increment("a", val(v)); ms.increment("a", val(w)); ms.decrement("a", val(v));
        let mut n = [0u8; 4]; n[w as usize] = 1;
        exact(&ms, n, false, true);
        vsym::witness!(v != w, "two values");
        std::mem::forget(ms);
    }
    unpaired(10) {
        let v = vsym::bool_(); let w = vsym::bool_();
        let ms = MetaState::new();
        ms.increment("a", val(v)); ms.decrement("a", val(w)); ms.decrement("b", val(w));
        let mut n = [0u8; 4]; n[v as usize] = (v != w) as u8;
        exact(&ms, n, false, true);
        vsym::witness!(v != w, "a finish without a start");
        std::mem::forget(ms);
    }
    text_one(24) { if vsym::bool_() { text(&[7], 7, 0, 1) } else { text(&[7, 7], 7, 0, 2) } }
    text_two(24) { if vsym::bool_() { text(&[7, 3], 7, 3, 1) } else { text(&[0, 9], 0, 9, 1) } }
}
fn text(starts: &[u8], v: u8, w: u8, n: u8) {
    let ms = MetaState::new();
    for i in starts { ms.increment("a", *i as i64); }
    let s = match ms.get("a") { Some(f) => f.to_json(), None => { assert!(false, "P14: a key is missing although somebody works on it"); return; } };
    let (a, b, c) = (b'0' + v, b'0' + w, b'0' + n);
    let ok = if starts.len() == n as usize { text_is(&s, &[b'{', b'"', a, b'"', b':', c, b'}']) }
        else { text_is(&s, &[b'{', b'"', a, b'"', b':', c, b',', b'"', b, b'"', b':', c, b'}']) || text_is(&s, &[b'{', b'"', b, b'"', b':', c, b',', b'"', a, b'"', b':', c, b'}']) };
    assert!(ok, "P14: the counts handed to the selection query are not the stored ones");
    vsym::witness!(true, "a text");
    std::mem::forget(ms);
}
