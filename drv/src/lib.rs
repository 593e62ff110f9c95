//! Entry points for the verifier: each one forwards to the item under contract.  Nothing here decides anything;
//! the bodies exist so that inlined and generic code of the crates is instantiated in this crate's IR.
#![allow(clippy::all)]
extern "Rust" {
    /// environment functions: left undefined here, given contracts by the verifier
    fn env_next(tag: u64) -> *mut u8;
    fn env_next_input(tag: u64) -> (*const u8, usize);
    fn env_write_str(p: *const u8, n: usize) -> bool;
}

pub struct Sink;
impl core::fmt::Write for Sink {
    #[inline(never)]
    fn write_str(&mut self, s: &str) -> core::fmt::Result {
        if unsafe { env_write_str(s.as_ptr(), s.len()) } {
            Ok(())
        } else {
            Err(core::fmt::Error)
        }
    }
}

/// what the processor says, asked independently of the crates
#[cfg(feature = "std")]
#[inline(never)]
pub fn has_avx2() -> bool {
    std::is_x86_feature_detected!("avx2")
}
#[cfg(feature = "std")]
#[inline(never)]
pub fn has_sse41() -> bool {
    std::is_x86_feature_detected!("sse4.1")
}

macro_rules! drv {
    ($m:ident, $krate:ident, $one:ident, $p:ident, $W:ty, $C:ty, $B:expr, $O:expr, $SALT:expr) => {
        pub mod $m {
            use $krate::many::*;
            use $krate::verify::*;
            use $krate::*;
            use $krate::$p as tree;

            // ---- layouts and encodings
            #[inline(never)]
            pub unsafe fn state_fields(x: *const State) -> [*const u8; 8] {
                $krate::verify::state_fields(x)
            }
            #[inline(never)]
            pub unsafe fn params_fields(x: *const Params) -> [*const u8; 13] {
                $krate::verify::params_fields(x)
            }
            #[inline(never)]
            pub unsafe fn hash_fields(x: *const Hash) -> [*const u8; 2] {
                $krate::verify::hash_fields(x)
            }
            #[inline(never)]
            pub unsafe fn mjob_fields(x: *const HashManyJob<'static>) -> [*const u8; 7] {
                $krate::many::verify::job_fields(x)
            }
            #[inline(never)]
            pub unsafe fn tstate_fields(x: *const tree::State) -> [*const u8; 8] {
                tree::verify::state_fields(x)
            }
            #[inline(never)]
            pub unsafe fn tparams_fields(x: *const tree::Params) -> [*const u8; 4] {
                tree::verify::params_fields(x)
            }
            #[inline(never)]
            pub unsafe fn job_fields(x: *const Job) -> [*const u8; 4] {
                use core::ptr::addr_of;
                [
                    addr_of!((*x).input) as *const u8,
                    addr_of!((*x).words) as *const u8,
                    addr_of!((*x).count) as *const u8,
                    addr_of!((*x).last_node) as *const u8,
                ]
            }
            #[inline(never)]
            pub fn sizes() -> [usize; 16] {
                use core::mem::{align_of, size_of};
                [
                    size_of::<State>(),
                    align_of::<State>(),
                    size_of::<Params>(),
                    align_of::<Params>(),
                    size_of::<Hash>(),
                    align_of::<Hash>(),
                    size_of::<HashManyJob>(),
                    align_of::<HashManyJob>(),
                    size_of::<tree::State>(),
                    align_of::<tree::State>(),
                    size_of::<tree::Params>(),
                    align_of::<tree::Params>(),
                    size_of::<Job>(),
                    align_of::<Job>(),
                    size_of::<Implementation>(),
                    align_of::<Implementation>(),
                ]
            }
            #[inline(never)]
            pub fn enc_last_node(yes: bool, out: &mut LastNode) {
                *out = if yes { LastNode::Yes } else { LastNode::No }
            }
            #[inline(never)]
            pub fn enc_finalize(yes: bool, out: &mut Finalize) {
                *out = if yes { Finalize::Yes } else { Finalize::No }
            }
            #[inline(never)]
            pub fn enc_stride(parallel: bool, out: &mut Stride) {
                *out = if parallel { Stride::Parallel } else { Stride::Serial }
            }
            #[inline(never)]
            pub fn enc_impl(which: u8, out: &mut Implementation) -> bool {
                let r = match which {
                    0 => Some(Implementation::portable()),
                    1 => Implementation::sse41_if_supported(),
                    _ => Implementation::avx2_if_supported(),
                };
                match r {
                    Some(i) => {
                        *out = i;
                        true
                    }
                    None => false,
                }
            }
            #[inline(never)]
            pub fn detect() -> Implementation {
                Implementation::detect()
            }
            #[inline(never)]
            pub fn imp_degree(i: &Implementation) -> usize {
                i.degree()
            }
            #[inline(never)]
            pub fn consts() -> [usize; 6] {
                [BLOCKBYTES, OUTBYTES, KEYBYTES, SALTBYTES, PERSONALBYTES, many::MAX_DEGREE]
            }

            // ---- compression
            #[inline(never)]
            pub fn compress1(i: &Implementation, input: &[u8], words: &mut [$W; 8], count: &$C, l: &LastNode, f: &Finalize, s: &Stride) {
                i.compress1_loop(input, words, *count, *l, *f, *s)
            }
            #[inline(never)]
            pub fn compress2(i: &Implementation, jobs: &mut [Job; 2], f: &Finalize, s: &Stride) {
                cn!($m, 2, i, jobs, f, s)
            }
            #[inline(never)]
            pub fn compress4(i: &Implementation, jobs: &mut [Job; 4], f: &Finalize, s: &Stride) {
                i.compress4_loop(jobs, *f, *s)
            }
            cn8!($m);

            // ---- Params
            #[inline(never)]
            pub fn params_new(out: *mut Params) {
                unsafe { out.write(Params::new()) }
            }
            #[inline(never)]
            pub fn params_default(out: *mut Params) {
                unsafe { out.write(Params::default()) }
            }
            #[inline(never)]
            pub fn params_clone(p: &Params, out: *mut Params) {
                unsafe { out.write(p.clone()) }
            }
            #[inline(never)]
            pub fn p_hash_length(p: &mut Params, n: usize) -> &mut Params {
                p.hash_length(n)
            }
            #[inline(never)]
            pub fn p_key<'a>(p: &'a mut Params, k: &[u8]) -> &'a mut Params {
                p.key(k)
            }
            #[inline(never)]
            pub fn p_salt<'a>(p: &'a mut Params, k: &[u8]) -> &'a mut Params {
                p.salt(k)
            }
            #[inline(never)]
            pub fn p_personal<'a>(p: &'a mut Params, k: &[u8]) -> &'a mut Params {
                p.personal(k)
            }
            #[inline(never)]
            pub fn p_fanout(p: &mut Params, n: u8) -> &mut Params {
                p.fanout(n)
            }
            #[inline(never)]
            pub fn p_max_depth(p: &mut Params, n: u8) -> &mut Params {
                p.max_depth(n)
            }
            #[inline(never)]
            pub fn p_max_leaf_length(p: &mut Params, n: u32) -> &mut Params {
                p.max_leaf_length(n)
            }
            #[inline(never)]
            pub fn p_node_offset(p: &mut Params, n: u64) -> &mut Params {
                p.node_offset(n)
            }
            #[inline(never)]
            pub fn p_node_depth(p: &mut Params, n: u8) -> &mut Params {
                p.node_depth(n)
            }
            #[inline(never)]
            pub fn p_inner_hash_length(p: &mut Params, n: usize) -> &mut Params {
                p.inner_hash_length(n)
            }
            #[inline(never)]
            pub fn p_last_node(p: &mut Params, n: bool) -> &mut Params {
                p.last_node(n)
            }
            #[inline(never)]
            pub fn params_hash(p: &Params, input: &[u8], out: *mut Hash) {
                unsafe { out.write(p.hash(input)) }
            }
            #[inline(never)]
            pub fn params_to_state(p: &Params, out: *mut State) {
                unsafe { out.write(p.to_state()) }
            }
            #[inline(never)]
            pub fn oneshot(input: &[u8], out: *mut Hash) {
                unsafe { out.write($one(input)) }
            }

            // ---- State
            #[inline(never)]
            pub fn state_new(out: *mut State) {
                unsafe { out.write(State::new()) }
            }
            #[inline(never)]
            pub fn state_default(out: *mut State) {
                unsafe { out.write(State::default()) }
            }
            #[inline(never)]
            pub fn state_clone(s: &State, out: *mut State) {
                unsafe { out.write(s.clone()) }
            }
            #[inline(never)]
            pub fn state_update<'a>(s: &'a mut State, input: &[u8]) -> &'a mut State {
                s.update(input)
            }
            #[inline(never)]
            pub fn state_finalize(s: &State, out: *mut Hash) {
                unsafe { out.write(s.finalize()) }
            }
            #[inline(never)]
            pub fn state_set_last_node(s: &mut State, b: bool) -> &mut State {
                s.set_last_node(b)
            }
            #[inline(never)]
            pub fn state_count(s: &State, out: &mut $C) {
                *out = s.count()
            }

            // ---- Hash
            #[inline(never)]
            pub fn hash_eq(a: &Hash, b: &Hash) -> bool {
                a == b
            }
            #[inline(never)]
            pub fn hash_ne(a: &Hash, b: &Hash) -> bool {
                a != b
            }
            #[inline(never)]
            pub fn hash_eq_slice(a: &Hash, b: &[u8]) -> bool {
                *a == *b
            }
            #[inline(never)]
            pub fn hash_as_bytes(a: &Hash) -> &[u8] {
                a.as_bytes()
            }
            #[inline(never)]
            pub fn hash_as_ref(a: &Hash) -> &[u8] {
                a.as_ref()
            }
            #[inline(never)]
            pub fn hash_as_array(a: &Hash) -> &[u8; $O] {
                a.as_array()
            }
            #[inline(never)]
            pub fn hash_from(a: [u8; $O], out: *mut Hash) {
                unsafe { out.write(Hash::from(a)) }
            }
            #[inline(never)]
            pub fn hash_from_ref(a: &[u8; $O], out: *mut Hash) {
                unsafe { out.write(Hash::from(a)) }
            }
            #[inline(never)]
            pub fn hash_clone(a: &Hash, out: *mut Hash) {
                unsafe { out.write(*a) }
            }
            #[inline(never)]
            pub fn hash_to_hex(a: &Hash, out: *mut u8) -> usize {
                let s = a.to_hex();
                let b = s.as_bytes();
                let n = b.len();
                unsafe { core::ptr::copy_nonoverlapping(b.as_ptr(), out, n) }
                n
            }

            // ---- many
            pub struct Jobs;
            impl Iterator for Jobs {
                type Item = &'static mut HashManyJob<'static>;
                #[inline(never)]
                fn next(&mut self) -> Option<Self::Item> {
                    let p = unsafe { crate::env_next(0) } as *mut HashManyJob<'static>;
                    if p.is_null() {
                        None
                    } else {
                        Some(unsafe { &mut *p })
                    }
                }
            }
            #[inline(never)]
            pub fn drive_hash_many() {
                many::hash_many(Jobs)
            }
            pub struct Pairs;
            impl Iterator for Pairs {
                type Item = (&'static mut State, &'static [u8]);
                #[inline(never)]
                fn next(&mut self) -> Option<Self::Item> {
                    let p = unsafe { crate::env_next(1) } as *mut State;
                    if p.is_null() {
                        None
                    } else {
                        unsafe {
                            let (q, n) = crate::env_next_input(1);
                            Some((&mut *p, core::slice::from_raw_parts(q, n)))
                        }
                    }
                }
            }
            #[inline(never)]
            pub fn drive_update_many() {
                many::update_many(Pairs)
            }
            #[inline(never)]
            pub fn mjob_new(p: &Params, input: &'static [u8], out: *mut HashManyJob<'static>) {
                unsafe { out.write(HashManyJob::new(p, input)) }
            }
            #[inline(never)]
            pub fn mjob_to_hash(j: &HashManyJob<'static>, out: *mut Hash) {
                unsafe { out.write(j.to_hash()) }
            }
            #[inline(never)]
            pub fn mjob_clone(j: &HashManyJob<'static>, out: *mut HashManyJob<'static>) {
                unsafe { out.write(j.clone()) }
            }
            #[inline(never)]
            pub fn many_degree() -> usize {
                many::degree()
            }

            // ---- tree mode
            #[inline(never)]
            pub fn t_params_new(out: *mut tree::Params) {
                unsafe { out.write(tree::Params::new()) }
            }
            #[inline(never)]
            pub fn t_params_default(out: *mut tree::Params) {
                unsafe { out.write(tree::Params::default()) }
            }
            #[inline(never)]
            pub fn t_params_clone(p: &tree::Params, out: *mut tree::Params) {
                unsafe { out.write(p.clone()) }
            }
            #[inline(never)]
            pub fn t_hash_length(p: &mut tree::Params, n: usize) -> &mut tree::Params {
                p.hash_length(n)
            }
            #[inline(never)]
            pub fn t_key<'a>(p: &'a mut tree::Params, k: &[u8]) -> &'a mut tree::Params {
                p.key(k)
            }
            #[inline(never)]
            pub fn t_hash(p: &tree::Params, input: &[u8], out: *mut Hash) {
                unsafe { out.write(p.hash(input)) }
            }
            #[inline(never)]
            pub fn t_oneshot(input: &[u8], out: *mut Hash) {
                unsafe { out.write(tree::$p(input)) }
            }
            #[inline(never)]
            pub fn t_to_state(p: &tree::Params, out: *mut tree::State) {
                unsafe { out.write(p.to_state()) }
            }
            #[inline(never)]
            pub fn t_state_new(out: *mut tree::State) {
                unsafe { out.write(tree::State::new()) }
            }
            #[inline(never)]
            pub fn t_state_default(out: *mut tree::State) {
                unsafe { out.write(tree::State::default()) }
            }
            #[inline(never)]
            pub fn t_state_clone(s: &tree::State, out: *mut tree::State) {
                unsafe { out.write(s.clone()) }
            }
            #[inline(never)]
            pub fn t_update<'a>(s: &'a mut tree::State, input: &[u8]) -> &'a mut tree::State {
                s.update(input)
            }
            #[inline(never)]
            pub fn t_finalize(s: &tree::State, out: *mut Hash) {
                unsafe { out.write(s.finalize()) }
            }
            #[inline(never)]
            pub fn t_count(s: &tree::State, out: &mut $C) {
                *out = s.count()
            }

            // ---- io::Write
            #[cfg(feature = "std")]
            pub mod io {
                use super::*;
                use std::io::Write;
                /// 0 and the count on success, 1 on error
                #[inline(never)]
                pub fn write(s: &mut State, b: &[u8]) -> (bool, usize) {
                    match s.write(b) {
                        Ok(n) => (true, n),
                        Err(e) => {
                            core::mem::forget(e);
                            (false, 0)
                        }
                    }
                }
                #[inline(never)]
                pub fn flush(s: &mut State) -> bool {
                    match s.flush() {
                        Ok(()) => true,
                        Err(e) => {
                            core::mem::forget(e);
                            false
                        }
                    }
                }
                #[inline(never)]
                pub fn t_write(s: &mut tree::State, b: &[u8]) -> (bool, usize) {
                    match s.write(b) {
                        Ok(n) => (true, n),
                        Err(e) => {
                            core::mem::forget(e);
                            (false, 0)
                        }
                    }
                }
                #[inline(never)]
                pub fn t_flush(s: &mut tree::State) -> bool {
                    match s.flush() {
                        Ok(()) => true,
                        Err(e) => {
                            core::mem::forget(e);
                            false
                        }
                    }
                }
            }

            // ---- Debug
            pub mod dbg {
                use super::*;
                use core::fmt::Write;
                #[inline(never)]
                pub fn params(x: &Params) -> bool {
                    write!(crate::Sink, "{:?}", x).is_ok()
                }
                #[inline(never)]
                pub fn state(x: &State) -> bool {
                    write!(crate::Sink, "{:?}", x).is_ok()
                }
                #[inline(never)]
                pub fn mjob(x: &HashManyJob<'static>) -> bool {
                    write!(crate::Sink, "{:?}", x).is_ok()
                }
                #[inline(never)]
                pub fn job(x: &Job<'static, 'static>) -> bool {
                    write!(crate::Sink, "{:?}", x).is_ok()
                }
                #[inline(never)]
                pub fn t_params(x: &tree::Params) -> bool {
                    write!(crate::Sink, "{:?}", x).is_ok()
                }
                #[inline(never)]
                pub fn t_state(x: &tree::State) -> bool {
                    write!(crate::Sink, "{:?}", x).is_ok()
                }
                #[inline(never)]
                pub fn hash(x: &Hash) -> bool {
                    write!(crate::Sink, "{:?}", x).is_ok()
                }
            }
        }
    };
}

macro_rules! cn {
    (b, 2, $i:ident, $j:ident, $f:ident, $s:ident) => {
        $i.compress2_loop($j, *$f, *$s)
    };
    (s, 2, $i:ident, $j:ident, $f:ident, $s:ident) => {{
        let _ = ($i, $j, $f, $s);
    }};
}
macro_rules! cn8 {
    (b) => {};
    (s) => {
        #[inline(never)]
        pub fn compress8(i: &Implementation, jobs: &mut [Job; 8], f: &Finalize, s: &Stride) {
            i.compress8_loop(jobs, *f, *s)
        }
    };
}

drv!(b, blake2b_simd, blake2b, blake2bp, u64, u128, 128, 64, 16);
drv!(s, blake2s_simd, blake2s, blake2sp, u32, u64, 64, 32, 8);
