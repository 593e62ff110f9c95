//! Runs the real crates of /repo against the specification, with a stated number of generated cases.
//! usage: native run SUITE SECONDS SEED MAXCASES [FIRST [big]] | native one SUITE CASE
#![allow(unexpected_cfgs)]
#![allow(unknown_lints, suspicious_runtime_symbol_definitions)]
mod reference;
mod suites;
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, Ordering};
use std::time::{Duration, Instant};

/// cases with this bit use long inputs too
const BIG_CASE: u64 = 1 << 62;
static BIG: AtomicBool = AtomicBool::new(false);
pub fn long_inputs() -> bool {
    BIG.load(Ordering::Relaxed)
}

pub type R = Result<(), String>;

#[derive(Clone)]
pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e3779b97f4a7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        if n == 0 { 0 } else { (self.next() % n as u64) as usize }
    }
    pub fn chance(&mut self, one_in: usize) -> bool {
        self.below(one_in) == 0
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        (0..n).map(|_| self.next() as u8).collect()
    }
    /// lengths around the interesting multiples of `b`
    pub fn len(&mut self, b: usize, blocks: usize) -> usize {
        if long_inputs() && self.chance(3) {
            // far beyond what the suite asks for: next to a power of two, or a number of blocks
            return match self.below(3) {
                0 => ((1usize << (12 + self.below(7))) + 3).saturating_sub(self.below(7)),
                1 => b * self.below(1 + (1 << 17) / b),
                _ => self.below(1 << 16),
            };
        }
        match self.below(8) {
            0 => 0,
            1 => 1 + self.below(b),
            2 | 3 | 4 => {
                let k = b * self.below(blocks + 1);
                (k + 2).saturating_sub(self.below(5))
            }
            5 => b * self.below(blocks + 1),
            6 => self.below(b * 3),
            _ => self.below(b * blocks + 1),
        }
    }
}

extern "C" {
    fn mmap(a: *mut u8, n: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    fn mprotect(a: *mut u8, n: usize, prot: i32) -> i32;
    fn signal(n: i32, f: usize) -> usize;
    fn write(fd: i32, p: *const u8, n: usize) -> isize;
    fn _exit(c: i32) -> !;
}

/// memory with an inaccessible page on both sides
pub struct Arena {
    slots: Vec<*mut u8>,
    next: usize,
}
const SLOT: usize = 1 << 22;
impl Arena {
    pub fn new() -> Arena {
        Arena { slots: vec![], next: 0 }
    }
    /// a new case: nothing of the one before is in use
    pub fn reset(&mut self) {
        self.next = 0;
    }
    /// a slot that this case has not used
    fn slot(&mut self) -> *mut u8 {
        if self.next == self.slots.len() {
            assert!(self.next < 16000, "the harness ran out of slots");
            unsafe {
                let p = mmap(std::ptr::null_mut(), SLOT + 8192, 0, 0x4022, -1, 0);
                assert!(p as isize != -1);
                assert_eq!(mprotect(p.add(4096), SLOT, 3), 0);
                self.slots.push(p.add(4096));
            }
        }
        self.next += 1;
        self.slots[self.next - 1]
    }
    /// a copy of `data` that ends (or starts) exactly at an inaccessible page
    pub fn put(&mut self, data: &[u8], at_end: bool) -> &'static [u8] {
        assert!(data.len() <= SLOT);
        let s = self.slot();
        unsafe {
            let p = if at_end { s.add(SLOT - data.len()) } else { s };
            std::ptr::copy_nonoverlapping(data.as_ptr(), p, data.len());
            std::slice::from_raw_parts(p, data.len())
        }
    }
    /// space for a value of `size` bytes as near to the end of the page as its alignment allows
    pub fn place(&mut self, size: usize, align: usize) -> *mut u8 {
        let s = self.slot();
        unsafe { s.add((SLOT - size) / align * align) }
    }
}

static mut CASE: [u8; 256] = [0; 256];
static mut CASE_LEN: usize = 0;

extern "C" fn on_fault(sig: i32) {
    unsafe {
        let m: &[u8] = match sig {
            7 | 11 => b"\nFAIL memory access outside the buffers (signal) in ",
            4 => b"\nFAIL illegal instruction in ",
            _ => b"\nFAIL abort in ",
        };
        write(1, m.as_ptr(), m.len());
        write(1, &raw const CASE as *const u8, CASE_LEN);
        write(1, b"\n".as_ptr(), 1);
        _exit(1)
    }
}

fn set_case(s: &str) {
    let b = s.as_bytes();
    let n = b.len().min(256);
    unsafe {
        std::ptr::copy_nonoverlapping(b.as_ptr(), &raw mut CASE as *mut u8, n);
        CASE_LEN = n;
    }
}

thread_local! { static LAST_PANIC: std::cell::RefCell<String> = std::cell::RefCell::new(String::new()); }

pub fn quiet<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| LAST_PANIC.with(|p| format!("panic: {}", p.borrow())))
}

fn main() {
    std::panic::set_hook(Box::new(|i| LAST_PANIC.with(|p| *p.borrow_mut() = i.to_string())));
    for s in [4, 6, 7, 8, 11] {
        unsafe { signal(s, on_fault as *const () as usize) };
    }
    let a: Vec<String> = std::env::args().collect();
    let list = suites::all();
    let get = |n: &str| list.iter().find(|x| x.0 == n).unwrap_or_else(|| panic!("no suite {}", n)).1;
    match a[1].as_str() {
        "list" => {
            for (n, _) in &list {
                println!("{}", n);
            }
        }
        "vectors" => suites::vectors(),
        "digests" => suites::digests(),
        "one" => {
            let f = get(&a[2]);
            let case: u64 = a[3].parse().unwrap();
            set_case(&format!("{} {}", a[2], case));
            BIG.store(case & BIG_CASE != 0, Ordering::Relaxed);
            match quiet(|| f(case)).unwrap_or_else(Err) {
                Ok(()) => println!("ok"),
                Err(e) => {
                    println!("FAIL {} in {} {}", e, a[2], case);
                    std::process::exit(1);
                }
            }
        }
        _ => {
            let f = get(&a[2]);
            let secs: f64 = a[3].parse().unwrap();
            let seed: u64 = a[4].parse().unwrap();
            let max: u64 = a[5].parse().unwrap();
            let t0 = Instant::now();
            let start: u64 = a.get(6).map_or(0, |x| x.parse().unwrap());
            let big = if a.get(7).is_some() { BIG_CASE } else { 0 };
            BIG.store(big != 0, Ordering::Relaxed);
            let mut n = start;
            while n < max && t0.elapsed() < Duration::from_secs_f64(secs) {
                // the first cases of a run from 0 are the systematic ones and do not depend on the seed
                let case = if n < 4096 { n } else { big | (seed << 32) + n };
                set_case(&format!("{} {}", a[2], case));
                suites::reset();
                if let Err(e) = quiet(|| f(case)).unwrap_or_else(Err) {
                    println!("FAIL {} in {} {}", e, a[2], case);
                    let _ = std::io::stdout().flush();
                    std::process::exit(1);
                }
                n += 1;
            }
            println!("CASES {} {:.2}", n - start, t0.elapsed().as_secs_f64());
        }
    }
}
