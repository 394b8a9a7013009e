//! The workload driver: a tiny interpreter that executes a script of library
//! calls against the real `louis` library, on one or several threads, inside
//! the simulator (`libsim.so`, preloaded). It contains no oracle: it records
//! what every call returned, and the simulator's clock around the call.

use std::cell::UnsafeCell;
use std::fmt::Write as _;
use std::panic::{AssertUnwindSafe, catch_unwind};

use louis::{
    Direction, EmphasisSpan, TranslationError, TranslationMode, TranslationModes,
    TranslationOptions, Translator,
};

unsafe extern "C" {
    fn sim_script(n: *mut usize) -> *const u8;
    fn sim_emit(p: *const u8, n: usize);
    fn sim_phase(k: u64);
    fn sim_setenv(k: *const std::ffi::c_char, v: *const std::ffi::c_char);
    fn sim_chdir(p: *const std::ffi::c_char);
    fn sim_open_fds() -> u64;
    fn sim_live_bytes() -> u64;
    fn sim_events() -> u64;
    fn sim_ticks() -> u64;
    fn sim_fired() -> u64;
    fn sim_threads() -> u64;
}

struct Slot(UnsafeCell<Option<Translator>>);
// Sharing a loaded translator between caller threads is part of what is under
// test; scripts never write a slot while another thread may read it.
unsafe impl Sync for Slot {}
struct Go<'a>(&'a [Op], &'a [Slot], usize, usize);
unsafe impl Send for Go<'_> {}

enum Op {
    New(usize, Direction, Vec<std::ffi::OsString>),
    Src(usize, Direction, String),
    Tr(usize, Option<TranslationOptions>, String),
    Drop(usize),
    Yield(u32),
    Mem,
    // what the program around the library does between calls
    Env(std::ffi::CString, Option<std::ffi::CString>),
    Chdir(std::ffi::CString),
}

fn bytes(s: &str) -> Vec<u8> {
    if s == "-" {
        return Vec::new();
    }
    (0..s.len() / 2)
        .map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap())
        .collect()
}

fn unhex(s: &str) -> String {
    String::from_utf8(bytes(s)).unwrap()
}

fn path(s: &str) -> std::ffi::OsString {
    std::os::unix::ffi::OsStringExt::from_vec(bytes(s))
}

fn hex(s: &str, out: &mut String) {
    if s.is_empty() {
        out.push('-');
    }
    const D: &[u8] = b"0123456789abcdef";
    for b in s.bytes() {
        out.push(D[(b >> 4) as usize] as char);
        out.push(D[(b & 15) as usize] as char);
    }
}

fn cstr(s: &str) -> std::ffi::CString {
    std::ffi::CString::new(bytes(s)).unwrap()
}

fn dir(s: &str) -> Direction {
    if s == "F" { Direction::Forward } else { Direction::Backward }
}

fn options(modes: &str, emph: &str) -> TranslationOptions {
    use TranslationMode::*;
    let all = [NoContractions, CompbrlAtCursor, DotsIo, CompbrlLeftCursor, UcBrl, NoUndefined, PartialTrans];
    let bits: u32 = modes.parse().unwrap();
    let mut m = TranslationModes::empty();
    for (i, v) in all.into_iter().enumerate() {
        if bits & (1 << i) != 0 {
            m.insert(v);
        }
    }
    let mut spans = Vec::new();
    if emph != "-" {
        for e in emph.split(',') {
            let p: Vec<&str> = e.split(':').collect();
            spans.push(EmphasisSpan::new(unhex(p[0]), p[1].parse().unwrap()..p[2].parse().unwrap()));
        }
    }
    TranslationOptions::default().with_mode(m).with_emphasis(spans)
}

fn parse(script: &str) -> (Vec<Vec<Vec<Op>>>, usize) {
    let mut phases: Vec<Vec<Vec<Op>>> = Vec::new();
    let mut slots = 0;
    for line in script.lines() {
        let f: Vec<&str> = line.split(' ').collect();
        let op = match f[0] {
            "phase" => {
                phases.push(Vec::new());
                continue;
            }
            "thread" => {
                phases.last_mut().unwrap().push(Vec::new());
                continue;
            }
            "N" => Op::New(f[1].parse().unwrap(), dir(f[2]), f[3..].iter().map(|s| path(s)).collect()),
            "S" => Op::Src(f[1].parse().unwrap(), dir(f[2]), unhex(f[3])),
            "T" => Op::Tr(f[1].parse().unwrap(), (f[2] != "-").then(|| options(f[2], f[3])), unhex(f[4])),
            "D" => Op::Drop(f[1].parse().unwrap()),
            "Y" => Op::Yield(f[1].parse().unwrap()),
            "M" => Op::Mem,
            "E" => Op::Env(cstr(f[1]), (f[2] != "!").then(|| cstr(f[2]))),
            "W" => Op::Chdir(cstr(f[1])),
            _ => continue,
        };
        if let Op::New(s, ..) | Op::Src(s, ..) | Op::Tr(s, ..) | Op::Drop(s) = &op {
            slots = slots.max(s + 1);
        }
        phases.last_mut().unwrap().last_mut().unwrap().push(op);
    }
    (phases, slots)
}

fn report(out: &mut String, e: &TranslationError) {
    match e {
        TranslationError::ParseFailed(errors) => {
            let _ = write!(out, "ERR {}", errors.len());
            for e in errors {
                out.push(' ');
                hex(&e.to_string(), out);
                out.push(':');
                hex(&format!("{e:?}"), out);
            }
        }
        e => {
            out.push_str("ERR 1 ");
            hex(&e.to_string(), out);
            out.push(':');
            hex(&format!("{e:?}"), out);
        }
    }
}

fn step(op: &Op, slots: &[Slot], out: &mut String) {
    let slot = |s: usize| unsafe { &mut *slots[s].0.get() };
    let slot_ref = |s: usize| unsafe { &*slots[s].0.get() };
    match op {
        Op::New(s, d, paths) => match Translator::new(paths, *d) {
            Ok(t) => {
                *slot(*s) = Some(t);
                out.push_str("OK -");
            }
            // nobody asks for the result of this one
            Err(_) if *s >= 90 => out.push_str("NONE -"),
            Err(e) => report(out, &e),
        },
        Op::Src(s, d, text) => match Translator::from_table_source(text, *d) {
            Ok(t) => {
                *slot(*s) = Some(t);
                out.push_str("OK -");
            }
            Err(e) => report(out, &e),
        },
        Op::Tr(s, o, text) => match slot_ref(*s) {
            None => out.push_str("NONE -"),
            Some(t) => match match o {
                Some(o) => t.translate_with_options(text, o.clone()).map(|r| r.output),
                None => t.translate(text),
            } {
                Ok(s) => {
                    out.push_str("OK ");
                    hex(&s, out);
                }
                Err(e) => report(out, &e),
            },
        },
        Op::Drop(s) => {
            *slot(*s) = None;
            out.push_str("OK -");
        }
        Op::Yield(n) => {
            for _ in 0..*n {
                std::thread::yield_now();
            }
            out.push_str("OK -");
        }
        Op::Mem => out.push_str("OK -"),
        Op::Env(k, v) => {
            unsafe { sim_setenv(k.as_ptr(), v.as_ref().map_or(std::ptr::null(), |v| v.as_ptr())) };
            out.push_str("OK -");
        }
        Op::Chdir(p) => {
            unsafe { sim_chdir(p.as_ptr()) };
            out.push_str("OK -");
        }
    }
}

fn run(g: Go) {
    let Go(ops, slots, p, t) = g;
    for (i, op) in ops.iter().enumerate() {
        let mut out = String::with_capacity(256);
        let (t0, e0) = unsafe { (sim_ticks(), sim_events()) };
        let r = catch_unwind(AssertUnwindSafe(|| {
            let mut o = String::new();
            step(op, slots, &mut o);
            o
        }));
        let (t1, e1, fds, f) = unsafe { (sim_ticks(), sim_events(), sim_open_fds(), sim_fired()) };
        let r = match r {
            Ok(o) => o,
            Err(e) => {
                let m = if let Some(s) = e.downcast_ref::<&str>() {
                    s.to_string()
                } else if let Some(s) = e.downcast_ref::<String>() {
                    s.clone()
                } else {
                    "?".to_string()
                };
                let mut o = String::from("PANIC ");
                hex(&m, &mut o);
                o
            }
        };
        let (live, nt) = unsafe { (sim_live_bytes() - r.capacity() as u64 - out.capacity() as u64, sim_threads()) };
        let _ = writeln!(out, "{p} {t} {i} {t0} {t1} {} {fds} {f} {live} {nt} {r}", e1 - e0);
        unsafe { sim_emit(out.as_ptr(), out.len()) };
    }
}

fn main() {
    let script = unsafe {
        let mut n = 0usize;
        let p = sim_script(&mut n);
        if p.is_null() || n == 0 {
            return;
        }
        std::str::from_utf8(std::slice::from_raw_parts(p, n)).unwrap()
    };
    let (phases, nslots) = parse(script);
    let slots: Vec<Slot> = (0..nslots).map(|_| Slot(UnsafeCell::new(None))).collect();
    for (p, threads) in phases.iter().enumerate() {
        unsafe { sim_phase(p as u64) };
        if threads.len() == 1 {
            run(Go(&threads[0], &slots, p, 0));
            continue;
        }
        std::thread::scope(|s| {
            for (t, ops) in threads.iter().enumerate() {
                let g = Go(ops, &slots, p, t);
                let r = std::thread::Builder::new().spawn_scoped(s, move || run(g));
                if r.is_err() {
                    let m = format!("{p} {t} -1 0 0 0 0 0 0 0 SPAWNFAIL -\n");
                    unsafe { sim_emit(m.as_ptr(), m.len()) };
                }
            }
        });
    }
}
