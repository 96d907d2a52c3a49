//! Native replay of one recorded input: replay ENTRY PARAMS EVENTS (comma separated lists, "-" if empty).
#![allow(dead_code)]
mod h;
mod native;
fn list(s: &str) -> Vec<u64> {
    s.split(',').filter(|x| !x.is_empty() && *x != "-").map(|x| x.parse().unwrap()).collect()
}
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let ev = if a[3].starts_with('@') { std::fs::read_to_string(&a[3][1..]).unwrap().trim().to_string() } else { a[3].clone() };
    let (entry, params, events) = (a[1].clone(), list(&a[2]), list(&ev));
    let t = std::thread::Builder::new().stack_size(256 << 20).spawn(move || {
        native::start(params, events);
        match h::entry(&entry) {
            Some(f) => f(),
            None => {
                println!("UNKNOWN-ENTRY");
                std::process::exit(5)
            }
        }
        println!("DONE");
    });
    t.unwrap().join().unwrap();
}
