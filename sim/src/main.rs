//! `bcsim`: deterministic simulation of bytecodec. See /verif/DESIGN.md.
mod codecs;
mod core;
mod feed;
mod hand;
mod props;
mod schema;
mod simio;
mod supervisor;

use crate::core::*;
use std::alloc::{GlobalAlloc, Layout, System};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::Mutex;

/// Memory is finite: a single request beyond this is refused, as a loaded machine would.
pub const ALLOC_LIMIT: usize = 512 << 20;
struct Refusing;
unsafe impl GlobalAlloc for Refusing {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if l.size() > ALLOC_LIMIT {
            return std::ptr::null_mut();
        }
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if l.size() > ALLOC_LIMIT {
            return std::ptr::null_mut();
        }
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if n > ALLOC_LIMIT {
            return std::ptr::null_mut();
        }
        System.realloc(p, l, n)
    }
}
#[global_allocator]
static ALLOC: Refusing = Refusing;

static LAST_PANIC: Mutex<Option<(String, String)>> = Mutex::new(None);

pub fn quiet_panics() {
    std::panic::set_hook(Box::new(|i| {
        let loc = i.location().map_or_else(String::new, |l| {
            let f = l.file();
            let f = f.rsplit("/repo/").next().unwrap_or(f);
            format!("{}:{}", f, l.line())
        });
        let msg = if let Some(s) = i.payload().downcast_ref::<&str>() {
            (*s).to_owned()
        } else if let Some(s) = i.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            String::new()
        };
        *LAST_PANIC.lock().unwrap_or_else(|e| e.into_inner()) = Some((loc, msg));
    }));
}

pub struct RunRes {
    pub res: R,
    pub stats: Stats,
    pub hashes: (u64, u64),
    pub nontrivial: bool,
    pub choices: Vec<u64>,
    pub log: Vec<String>,
}

/// One simulated run: a pure function of the choices and the code.
pub fn run_once(p: &props::Prop, ch: Choices, trace: bool) -> RunRes {
    let ctx = Ctx::new(ch, trace);
    let r = catch_unwind(AssertUnwindSafe(|| (p.run)(&ctx)));
    let res = match r {
        Ok(r) => r,
        Err(payload) => {
            if let Some(b) = payload.downcast_ref::<BudgetExceeded>() {
                Err(Viol { class: "no-end".into(), msg: format!("step budget exceeded: {}", b.0) })
            } else {
                let (loc, msg) = LAST_PANIC.lock().unwrap_or_else(|e| e.into_inner()).take().unwrap_or_default();
                Err(Viol { class: "panic".into(), msg: format!("panic at {loc}: {msg}") })
            }
        }
    };
    RunRes {
        res,
        stats: ctx.take_stats(),
        hashes: ctx.hashes(),
        nontrivial: ctx.is_nontrivial(),
        choices: ctx.used(),
        log: ctx.take_log(),
    }
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let a: Vec<&str> = args.iter().map(String::as_str).collect();
    let code = match a.get(1).copied() {
        Some("check") => supervisor::check(a[2]),
        Some("worker") => supervisor::worker(&a[2..]),
        Some("exec") => supervisor::exec(&a[2..]),
        Some("record") => supervisor::record(&a[2..]),
        Some("shrink") => supervisor::shrink(&a[2..]),
        Some("replay") => supervisor::replay(a[2]),
        Some("hash") => supervisor::hash(&a[2..]),
        Some("known") => supervisor::known(a[2]),
        Some("list") => {
            for p in props::PROPS {
                println!("{}", p.id);
            }
            0
        }
        _ => {
            eprintln!("usage: bcsim check PROP | replay FILE | list");
            2
        }
    };
    std::process::exit(code);
}
