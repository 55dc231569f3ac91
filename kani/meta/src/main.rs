fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a[1] == "--record" { return; }
    if !(vmeta::h_meta::dispatch(&a[1]) || vmeta::h_trace::dispatch(&a[1])) { eprintln!("no harness {}", a[1]); std::process::exit(4); }
    println!("VERIF-REPLAY-COMPLETED");
}
