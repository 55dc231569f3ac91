//! Native driver: `replay <harness>` or `replay --record`.
fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a[1] == "--record" { vcore::record::record(); return; }
    if !(vcore::h_db::dispatch(&a[1]) || vcore::h_read::dispatch(&a[1])) { eprintln!("no harness {}", a[1]); std::process::exit(4); }
    println!("VERIF-REPLAY-COMPLETED");
}
