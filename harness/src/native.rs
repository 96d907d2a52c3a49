//! Native implementations of the symbolic interface: values come from a recorded event list.
use std::cell::RefCell;
#[derive(Default)]
struct St {
    params: Vec<u64>,
    events: Vec<u64>,
    pos: usize,
    allow_panic: bool,
    failed: bool,
}
thread_local!(static ST: RefCell<St> = RefCell::new(St::default()));

fn text(p: *const u8, n: usize) -> String {
    String::from_utf8_lossy(unsafe { std::slice::from_raw_parts(p, n) }).to_string()
}
#[no_mangle]
pub extern "C" fn sym_u64(bits: u32) -> u64 {
    ST.with(|s| {
        let mut s = s.borrow_mut();
        if s.pos >= s.events.len() {
            println!("EVENTS-EXHAUSTED");
            std::process::exit(3);
        }
        let v = s.events[s.pos];
        s.pos += 1;
        if bits >= 64 {
            v
        } else {
            v & ((1u64 << bits) - 1)
        }
    })
}
#[no_mangle]
pub extern "C" fn sym_concretize(v: u64) -> u64 {
    v
}
#[no_mangle]
pub extern "C" fn sym_assume(c: u32) {
    if c & 1 == 0 {
        println!("ASSUME-FALSE");
        std::process::exit(4);
    }
}
#[no_mangle]
pub extern "C" fn sym_assert(c: u32, p: *const u8, n: usize) {
    if c & 1 == 0 {
        println!("ASSERT-FAIL {}", text(p, n));
        ST.with(|s| s.borrow_mut().failed = true);
        std::process::exit(1);
    }
}
#[no_mangle]
pub extern "C" fn sym_known(c: u32, p: *const u8, n: usize) {
    if c & 1 == 0 {
        println!("KNOWN-FAIL {}", text(p, n));
    }
}
#[no_mangle]
pub extern "C" fn sym_allow_panic(c: u32) {
    ST.with(|s| s.borrow_mut().allow_panic = c & 1 == 1);
}
#[no_mangle]
pub extern "C" fn sym_cover(p: *const u8, n: usize) {
    println!("COVER {}", text(p, n));
}
#[no_mangle]
pub extern "C" fn sym_observe(v: u64) {
    println!("OBS {}", v);
}
#[no_mangle]
pub extern "C" fn sym_param(i: u32) -> u64 {
    ST.with(|s| s.borrow().params.get(i as usize).copied().unwrap_or(0))
}
pub fn start(params: Vec<u64>, events: Vec<u64>) {
    ST.with(|s| {
        let mut s = s.borrow_mut();
        s.params = params;
        s.events = events;
    });
    std::panic::set_hook(Box::new(|i| {
        let ok = ST.with(|s| s.borrow().allow_panic);
        println!("{} {}", if ok { "PANIC-ALLOWED" } else { "PANIC" }, i.to_string().replace('\n', " "));
        std::process::exit(if ok { 0 } else { 101 });
    }));
}
