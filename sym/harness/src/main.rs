#![allow(dead_code)]
//! Harnesses.  `symh <obligation> <out> <decisions>` executes one obligation once,
//! following the given decisions, and writes the term DAG and the events.
mod sym;
mod accuracy;
mod geom;
mod history;
mod batch;
mod matrix;
mod model;
mod rays;
mod serial;
mod special;
mod util;
use std::ffi::CString;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let mut table: Vec<(&'static str, i32, fn())> = vec![];
    geom::table(&mut table);
    accuracy::table(&mut table);
    batch::table(&mut table);
    history::table(&mut table);
    matrix::table(&mut table);
    model::table(&mut table);
    rays::table(&mut table);
    serial::table(&mut table);
    special::table(&mut table);
    util::table(&mut table);
    if a.len() < 3 {
        for (n, fp, _) in &table {
            println!("{n} {fp}");
        }
        return;
    }
    let (_, fp, f) = *table.iter().find(|t| t.0 == a[1]).expect("no such obligation");
    let out = CString::new(a[2].as_str()).unwrap();
    let dec = CString::new(a.get(3).map(|s| s.as_str()).unwrap_or("")).unwrap();
    std::panic::set_hook(Box::new(|_| {}));
    unsafe { sym::symrt_init(out.as_ptr(), dec.as_ptr(), fp) };
    // a panic in here shows up in the obligations on the same functions
    unsafe { sym::symrt_concrete(1) };
    let _ = std::panic::catch_unwind(util::warm_up);
    unsafe { sym::symrt_concrete(0) };
    match std::panic::catch_unwind(f) {
        Ok(()) => unsafe { sym::symrt_finish() },
        Err(_) => unsafe { sym::symrt_panic() },
    }
}
