//! Native replay: runs one harness on recorded inputs against the natively
//! compiled crate.
//!   replay --list                 the table, as JSON lines
//!   replay ENTRY INPUTS           INPUTS: one value per line, in call order
//! exit 0: ended normally; 3: assertion failed (printed); 4: an assumption
//! does not hold or the inputs do not fit; abort: panic.
use std::cell::RefCell;

struct St {
    inp: Vec<u128>,
    pos: usize,
}
thread_local! { static ST: RefCell<St> = RefCell::new(St { inp: vec![], pos: 0 }); }
fn next() -> u128 {
    ST.with(|s| {
        let mut s = s.borrow_mut();
        let p = s.pos;
        s.pos += 1;
        match s.inp.get(p) {
            Some(v) => *v,
            None => {
                println!("INPUT-EXHAUSTED");
                std::process::exit(4)
            }
        }
    })
}
#[no_mangle]
extern "C" fn __sym_u8() -> u8 {
    next() as u8
}
#[no_mangle]
extern "C" fn __sym_u16() -> u16 {
    next() as u16
}
#[no_mangle]
extern "C" fn __sym_u32() -> u32 {
    next() as u32
}
#[no_mangle]
extern "C" fn __sym_u64() -> u64 {
    next() as u64
}
#[no_mangle]
extern "C" fn __sym_choose(n: u64) -> u64 {
    let v = next() as u64;
    if v >= n {
        println!("INPUT-MISFIT");
        std::process::exit(4)
    }
    v
}
#[no_mangle]
extern "C" fn __sym_assume(c: bool) {
    if !c {
        println!("ASSUMPTION-FAILED");
        std::process::exit(4)
    }
}
#[no_mangle]
extern "C" fn __sym_assert(c: bool, p: *const u8, n: usize) {
    if !c {
        let s = unsafe { std::slice::from_raw_parts(p, n) };
        println!("ASSERT-FAILED {}", String::from_utf8_lossy(s));
        std::process::exit(3)
    }
}
#[no_mangle]
extern "C" fn __sym_reach(_p: *const u8, _n: usize) {}
#[no_mangle]
extern "C" fn __sym_observe(v: u64) {
    println!("OBS {}", v);
}
#[no_mangle]
extern "C" fn __sym_concretize(v: u64) -> u64 {
    v
}
#[no_mangle]
extern "C" fn __sym_bytes(p: *mut u8, n: usize) {
    for i in 0..n {
        let v = next() as u8;
        unsafe { *p.add(i) = v }
    }
}
#[no_mangle]
extern "C" fn __sym_formats() {}
#[no_mangle]
extern "C" fn __sym_note(p: *const u8, n: usize) {
    let s = unsafe { std::slice::from_raw_parts(p, n) };
    println!("NOTE {:?}", String::from_utf8_lossy(s));
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.len() == 2 && a[1] == "--list" {
        for e in harness::entries() {
            let r: Vec<String> = e.reach.iter().map(|x| format!("{:?}", x)).collect();
            println!("{{\"name\":{:?},\"prop\":{:?},\"tier\":{:?},\"reach\":[{}],\"about\":{:?}}}", e.name, e.prop, e.tier, r.join(","), e.about);
        }
        return;
    }
    let e = harness::entries().into_iter().find(|e| e.name == a[1]).expect("no such entry");
    let text = std::fs::read_to_string(&a[2]).expect("inputs");
    let inp: Vec<u128> = text.lines().filter(|l| !l.starts_with('#')).map(|l| l.trim()).filter(|l| !l.is_empty()).map(|l| l.parse().expect("number")).collect();
    let n = inp.len();
    ST.with(|s| s.borrow_mut().inp = inp);
    (e.f)();
    let used = ST.with(|s| s.borrow().pos);
    if used != n {
        println!("INPUT-LEFT {} of {}", used, n);
        std::process::exit(4);
    }
    println!("DONE");
}
