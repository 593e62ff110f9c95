use crate::reference::{self, P, V};
use crate::{quiet, Arena, Rng, R};
use std::cell::RefCell;
#[cfg(feature = "std")]
use std::io::Write;

thread_local! { static ARENA: RefCell<Arena> = RefCell::new(Arena::new()); }
pub fn reset() {
    ARENA.with(|a| a.borrow_mut().reset());
}
/// a copy of `d` directly before (or behind) an inaccessible page
fn put(d: &[u8], rng: &mut Rng) -> &'static [u8] {
    let e = !rng.chance(4);
    ARENA.with(|a| a.borrow_mut().put(d, e))
}
/// a value whose last byte is as near as possible to an inaccessible page
struct Placed<T: 'static>(&'static mut T);
impl<T> Placed<T> {
    fn new(x: T) -> Placed<T> {
        let p = ARENA.with(|a| a.borrow_mut().place(std::mem::size_of::<T>(), std::mem::align_of::<T>())) as *mut T;
        unsafe {
            p.write(x);
            Placed(&mut *p)
        }
    }
}

pub fn hex(b: &[u8]) -> String {
    let mut s: String = b.iter().take(64).map(|x| format!("{:02x}", x)).collect();
    if b.len() > 64 {
        s += &format!("..({} bytes)", b.len());
    }
    s
}

macro_rules! ensure {
    ($c:expr, $($a:tt)*) => { if !$c { return Err(format!($($a)*)); } };
}

macro_rules! variant {
    ($m:ident, $k:ident, $f:ident, $tree:ident, $tf:ident, $V:expr, $count:ty, $word:ty, $offmax:expr, $cases:expr) => {
        pub mod $m {
            use super::*;
            use $k::many::{hash_many, update_many, HashManyJob};
            use $k::{$tree as tree, Hash, Params, State};
            pub const V: V = $V;
            const BB: usize = $k::BLOCKBYTES;
            const OUT: usize = $k::OUTBYTES;

            // ---- the hooks: other implementations, and counters too large to reach by feeding bytes ----
            #[cfg(blake2_verify)]
            type Imp = $k::verify::Implementation;
            #[cfg(not(blake2_verify))]
            type Imp = ();

            #[cfg(blake2_verify)]
            pub fn imps() -> Vec<Imp> {
                let mut v = vec![$k::verify::Implementation::portable()];
                v.extend($k::verify::Implementation::sse41_if_supported());
                v.extend($k::verify::Implementation::avx2_if_supported());
                v
            }
            #[cfg(not(blake2_verify))]
            pub fn imps() -> Vec<Imp> {
                vec![()]
            }
            #[allow(unused_variables)]
            fn force(p: &mut Params, i: Imp) {
                #[cfg(blake2_verify)]
                unsafe {
                    let a = $k::verify::params_fields(p as *const Params)[12] as *mut Imp;
                    a.write_unaligned(i)
                }
            }
            #[allow(unused_variables)]
            fn force_tree(p: &mut tree::Params, i: Imp) {
                #[cfg(blake2_verify)]
                unsafe {
                    let a = tree::verify::params_fields(p as *const tree::Params)[3] as *mut Imp;
                    a.write_unaligned(i)
                }
            }
            /// pretend that `t` bytes (a multiple of the block size) went before; false without the hook
            #[allow(unused_variables)]
            fn set_count(s: &mut State, t: u128) -> bool {
                #[cfg(blake2_verify)]
                unsafe {
                    let a = $k::verify::state_fields(s as *const State)[1] as *mut $count;
                    a.write_unaligned(t as $count);
                    return true;
                }
                #[cfg(not(blake2_verify))]
                false
            }
            #[cfg(blake2_verify)]
            fn words(s: &State) -> [u64; 8] {
                let mut o = [0; 8];
                unsafe {
                    let a = $k::verify::state_fields(s as *const State)[0] as *const $word;
                    for i in 0..8 {
                        o[i] = a.add(i).read_unaligned() as u64;
                    }
                }
                o
            }
            fn some_imp(rng: &mut Rng) -> Imp {
                let v = imps();
                v[rng.below(v.len())]
            }
            /// multiples of the block size around the word boundaries of the counter
            fn big(rng: &mut Rng, room: usize) -> u128 {
                let room = if crate::long_inputs() { room + (1 << 22) } else { room };
                let bb = BB as u128;
                let back = (rng.below(6) as u128) * bb;
                let max = <$count>::MAX as u128;
                let t = match rng.below(4) {
                    0 => (1u128 << 32) - back,
                    1 => (1u128 << V.w).wrapping_sub(back),
                    2 => ((rng.next() as u128) << 40 | rng.next() as u128) / bb * bb,
                    _ => max / bb * bb - (room as u128 + 3 * bb) / bb * bb - back,
                };
                (t & max).min(max / bb * bb - (room as u128 / bb + 3) * bb) / bb * bb
            }

            // ---- parameters ----
            /// apply `n` random setters to the real parameters and to the model
            fn setters(rng: &mut Rng, n: usize, p: &mut Params, m: &mut P) {
                for _ in 0..n {
                    match rng.below(11) {
                        0 => {
                            m.hash_length = 1 + rng.below(OUT);
                            p.hash_length(m.hash_length);
                        }
                        1 => {
                            let l = [0, 1, OUT, rng.below(OUT + 1)][rng.below(4)];
                            m.key = rng.bytes(l);
                            let k = put(&m.key, rng);
                            p.key(k);
                        }
                        2 => {
                            let l = [0, OUT / 4, rng.below(OUT / 4 + 1)][rng.below(3)];
                            m.salt = rng.bytes(l);
                            let k = put(&m.salt, rng);
                            p.salt(k);
                        }
                        3 => {
                            let l = [0, OUT / 4, rng.below(OUT / 4 + 1)][rng.below(3)];
                            m.personal = rng.bytes(l);
                            let k = put(&m.personal, rng);
                            p.personal(k);
                        }
                        4 => {
                            m.fanout = rng.next() as u8;
                            p.fanout(m.fanout);
                        }
                        5 => {
                            m.max_depth = rng.next() as u8;
                            p.max_depth(m.max_depth);
                        }
                        6 => {
                            m.max_leaf_length = rng.next() as u32;
                            p.max_leaf_length(m.max_leaf_length);
                        }
                        7 => {
                            m.node_offset = [rng.next() & $offmax, $offmax, 0, rng.next() & 0xff][rng.below(4)];
                            p.node_offset(m.node_offset);
                        }
                        8 => {
                            m.node_depth = rng.next() as u8;
                            p.node_depth(m.node_depth);
                        }
                        9 => {
                            m.inner_hash_length = [0, OUT, rng.below(OUT + 1)][rng.below(3)];
                            p.inner_hash_length(m.inner_hash_length);
                        }
                        _ => {
                            m.last_node = rng.chance(2);
                            p.last_node(m.last_node);
                        }
                    }
                }
            }
            fn params(rng: &mut Rng) -> (Params, P) {
                let mut p = if rng.chance(2) { Params::new() } else { Params::default() };
                let mut m = P::new(&V);
                let n = [0, 1, 2, 5, 14][rng.below(5)];
                setters(rng, n, &mut p, &mut m);
                if rng.chance(2) {
                    p = p.clone();
                }
                force(&mut p, some_imp(rng));
                (p, m)
            }
            fn keyed(rng: &mut Rng, p: &mut Params, m: &mut P) {
                let l = [1, OUT, 1 + rng.below(OUT)][rng.below(3)];
                m.key = rng.bytes(l);
                p.key(&m.key);
            }
            fn tree_params(rng: &mut Rng) -> (tree::Params, usize, Vec<u8>) {
                let mut p = if rng.chance(2) { tree::Params::new() } else { tree::Params::default() };
                let mut hl = OUT;
                let mut key = vec![];
                for _ in 0..rng.below(4) {
                    if rng.chance(2) {
                        hl = 1 + rng.below(OUT);
                        p.hash_length(hl);
                    } else {
                        let l = [0, 1, OUT, rng.below(OUT + 1)][rng.below(4)];
                        key = rng.bytes(l);
                        let k = put(&key, rng);
                        p.key(k);
                    }
                }
                if rng.chance(2) {
                    p = p.clone();
                }
                force_tree(&mut p, some_imp(rng));
                (p, hl, key)
            }
            fn feed(rng: &mut Rng, s: &mut State, data: &[u8]) {
                let mut i = 0;
                loop {
                    let n = rng.len(BB, 6).min(data.len() - i);
                    let d = put(&data[i..i + n], rng);
                    s.update(d);
                    i += n;
                    if i == data.len() && rng.chance(2) {
                        break;
                    }
                }
            }
            fn feed_tree(rng: &mut Rng, s: &mut tree::State, data: &[u8]) {
                let mut i = 0;
                let unit = BB * V.leaves;
                loop {
                    let n = if rng.chance(2) { rng.len(BB, 3 * V.leaves) } else { rng.len(unit, 4) }.min(data.len() - i);
                    let d = put(&data[i..i + n], rng);
                    s.update(d);
                    i += n;
                    if i == data.len() && rng.chance(2) {
                        break;
                    }
                }
            }

            // ---- C01 ----
            pub fn digest(case: u64) -> R {
                let mut rng = Rng(case);
                let (mut p, mut m) = (Params::new(), P::new(&V));
                let n;
                if (case as usize) < 4 * BB + 3 {
                    n = case as usize;
                    force(&mut p, some_imp(&mut rng));
                } else {
                    n = rng.len(BB, 20);
                    let (a, b) = params(&mut rng);
                    p = a;
                    m = b;
                }
                let msg = rng.bytes(n);
                let msg = put(&msg, &mut rng);
                let want = V.hash(&m, msg);
                let got = p.hash(msg);
                ensure!(got.as_bytes() == want, "Params::hash of {} bytes with {:?}: {} instead of {}", n, m, hex(got.as_bytes()), hex(&want));
                if (case as usize) < 4 * BB + 3 {
                    let got = $k::$f(msg);
                    ensure!(got.as_bytes() == want, "one-shot function on {} bytes: {} instead of {}", n, hex(got.as_bytes()), hex(&want));
                }
                let mut s = p.to_state();
                if rng.chance(2) {
                    s.update(msg);
                } else {
                    feed(&mut rng, &mut s, msg);
                }
                let got = s.finalize();
                ensure!(got.as_bytes() == want, "State after {} bytes with {:?}: {} instead of {}", n, m, hex(got.as_bytes()), hex(&want));
                // far into a long message
                let t = big(&mut rng, n);
                let mut s = p.to_state();
                if m.key.is_empty() && set_count(&mut s, t) {
                    // a message that got this far has a nonempty rest
                    let msg = if msg.is_empty() { &b"x"[..] } else { msg };
                    s.update(msg);
                    let want = V.bytes(&V.finish(&m.words(&V), t, msg, m.last_node), m.hash_length);
                    let got = s.finalize();
                    ensure!(got.as_bytes() == want, "State at byte {} after {} bytes with {:?}: {} instead of {}", t, msg.len(), m, hex(got.as_bytes()), hex(&want));
                }
                Ok(())
            }

            // ---- C02 ----
            pub fn parameters(case: u64) -> R {
                let mut rng = Rng(case);
                let (mut p, mut m) = (Params::new(), P::new(&V));
                if case == 0 {
                    p = Params::default();
                }
                if case > 2 {
                    let n = 1 + rng.below(12);
                    setters(&mut rng, n, &mut p, &mut m);
                    if rng.chance(2) {
                        // a clone is independent
                        let mut q = p.clone();
                        let mut mq = m.clone();
                        setters(&mut rng, 3, &mut q, &mut mq);
                        if rng.chance(2) {
                            p = q;
                            m = mq;
                        }
                    }
                }
                let s = match case { 1 => State::new(), 2 => State::default(), _ => p.to_state() };
                #[cfg(blake2_verify)]
                {
                    let w = words(&s);
                    ensure!(w == m.words(&V), "state words {:x?} instead of {:x?} for {:?}", w, m.words(&V), m);
                }
                let h = s.finalize();
                ensure!(h.as_bytes().len() == m.hash_length, "digest length {} for {:?}", h.as_bytes().len(), m);
                let n = rng.len(BB, 2);
                let msg = rng.bytes(n);
                let want = V.hash(&m, &msg);
                let (a, b) = (p.hash(&msg), p.to_state().update(&msg).finalize());
                // (the compression itself is C01's)
                let plain = $k::$f(&msg).as_bytes() == V.hash(&P::new(&V), &msg);
                if plain {
                    ensure!(a.as_bytes() == want, "hash {} instead of {} for {:?}", hex(a.as_bytes()), hex(&want), m);
                    ensure!(b.as_bytes() == want, "state hash {} instead of {} for {:?}", hex(b.as_bytes()), hex(&want), m);
                }
                // same field values, set afresh in another order, give the same digest
                let mut q = Params::new();
                q.last_node(m.last_node).inner_hash_length(m.inner_hash_length).node_depth(m.node_depth).node_offset(m.node_offset);
                q.max_leaf_length(m.max_leaf_length).max_depth(m.max_depth).fanout(m.fanout).personal(&m.personal).salt(&m.salt);
                q.key(&m.key).hash_length(m.hash_length);
                let c = q.hash(&msg);
                ensure!(a == c, "the digest depends on the history of setters: {} / {} for {:?}", hex(a.as_bytes()), hex(c.as_bytes()), m);
                Ok(())
            }

            // ---- C03 ----
            pub fn incremental(case: u64) -> R {
                let mut rng = Rng(case);
                let (p, m) = params(&mut rng);
                let n = if case < 300 { case as usize } else { rng.len(BB, 24) };
                let data = rng.bytes(n);
                let one = p.hash(&data);
                let mut s = Placed::new(p.to_state());
                feed(&mut rng, &mut s.0, &data);
                ensure!(s.0.finalize() == one, "{} bytes in pieces: {} instead of {} with {:?}", n, hex(s.0.finalize().as_bytes()), hex(one.as_bytes()), m);
                let t = big(&mut rng, n);
                if m.key.is_empty() && n > 0 {
                    let mut a = p.to_state();
                    let mut b = p.to_state();
                    if set_count(&mut a, t) && set_count(&mut b, t) {
                        a.update(&data);
                        feed(&mut rng, &mut b, &data);
                        ensure!(a.finalize() == b.finalize(), "{} bytes in pieces from byte {} on differ from one update with {:?}", n, t, m);
                    }
                }
                Ok(())
            }

            // ---- C04 ----
            pub fn finalizing(case: u64) -> R {
                let mut rng = Rng(case);
                if case % 4 == 3 {
                    let (p, hl, key) = tree_params(&mut rng);
                    let (mut a, mut plain) = (p.to_state(), p.to_state());
                    let mut fed = vec![];
                    for _ in 0..1 + rng.below(6) {
                        let n = rng.len(BB, 5 * V.leaves);
                        let d = rng.bytes(n);
                        let c = a.clone();
                        let before = (a.finalize(), a.count());
                        a.update(&d);
                        plain.update(&d);
                        ensure!((c.finalize(), c.count()) == before, "clone of a tree state changed with the original after {} + {} bytes", fed.len(), n);
                        ensure!(c.finalize() == before.0, "finalizing twice differs after {} bytes", fed.len());
                        fed.extend(d);
                        let mut c2 = c.clone();
                        c2.update(&fed[c.count() as usize..]);
                        if rng.chance(2) {
                            a = c2;
                        }
                    }
                    ensure!(a.finalize() == plain.finalize(), "finalizing and cloning on the way changed the tree digest of {} bytes (length {}, key {})", fed.len(), hl, hex(&key));
                    return Ok(());
                }
                let (p, m) = params(&mut rng);
                let (mut a, mut plain) = (Placed::new(p.to_state()), p.to_state());
                let mut fed = vec![];
                for _ in 0..1 + rng.below(8) {
                    let n = rng.len(BB, 4);
                    let d = rng.bytes(n);
                    let c = a.0.clone();
                    let before = (a.0.finalize(), a.0.count());
                    if rng.chance(2) {
                        // set and take back the flag of the original only
                        a.0.set_last_node(!m.last_node);
                        ensure!(c.finalize() == before.0, "clone changed when the flag of the original did, after {} bytes", fed.len());
                        a.0.set_last_node(m.last_node);
                    }
                    a.0.update(&d);
                    plain.update(&d);
                    ensure!((c.finalize(), c.count()) == before, "clone changed with the original after {} + {} bytes with {:?}", fed.len(), n, m);
                    ensure!(c.finalize() == before.0, "finalizing twice differs after {} bytes", fed.len());
                    let k = fed.len();
                    fed.extend(d);
                    let mut c2 = c.clone();
                    c2.update(&fed[k..]);
                    ensure!(c2.finalize() == a.0.finalize(), "a clone taken after {} bytes goes on differently from the original with {:?}", k, m);
                    if rng.chance(2) {
                        a = Placed::new(c2);
                    }
                }
                ensure!(a.0.finalize() == plain.finalize(), "finalizing and cloning on the way changed the digest of {} bytes with {:?}", fed.len(), m);
                Ok(())
            }

            // ---- C05 ----
            pub fn counting(case: u64) -> R {
                let mut rng = Rng(case);
                if case % 2 == 1 {
                    let (p, hl, key) = tree_params(&mut rng);
                    let mut s = p.to_state();
                    let mut n = 0u128;
                    for _ in 0..1 + rng.below(10) {
                        ensure!(s.count() as u128 == n, "tree count {} after {} bytes (length {}, key of {} bytes)", s.count(), n, hl, key.len());
                        let l = rng.len(BB, 6 * V.leaves);
                        s.update(&rng.bytes(l));
                        n += l as u128;
                        if rng.chance(3) {
                            s = s.clone();
                        }
                        if rng.chance(3) {
                            s.finalize();
                        }
                    }
                    ensure!(s.count() as u128 == n, "tree count {} after {} bytes (length {}, key of {} bytes)", s.count(), n, hl, key.len());
                    return Ok(());
                }
                let (mut p, mut m) = params(&mut rng);
                if rng.chance(2) {
                    keyed(&mut rng, &mut p, &mut m);
                }
                let mut s = p.to_state();
                let mut n = 0u128;
                ensure!(s.count() as u128 == n, "count {} of a new state with {:?}", s.count(), m);
                let t = big(&mut rng, 60 * BB);
                if m.key.is_empty() && rng.chance(4) && set_count(&mut s, t) {
                    n = t;
                }
                for _ in 0..1 + rng.below(10) {
                    let l = rng.len(BB, 5);
                    s.update(&rng.bytes(l));
                    n += l as u128;
                    ensure!(s.count() as u128 == n, "count {} after {} bytes with {:?}", s.count(), n, m);
                    if rng.chance(3) {
                        s = s.clone();
                    }
                    if rng.chance(3) {
                        s.set_last_node(rng.chance(2));
                    }
                    if rng.chance(3) {
                        s.finalize();
                    }
                    ensure!(s.count() as u128 == n, "count {} after {} bytes with {:?}", s.count(), n, m);
                }
                Ok(())
            }

            // ---- C06 ----
            pub fn keys(case: u64) -> R {
                let mut rng = Rng(case);
                let n = if case % 3 == 0 { 0 } else { rng.len(BB, 12) };
                let msg = rng.bytes(n);
                let msg = put(&msg, &mut rng);
                let (mut p, mut m) = params(&mut rng);
                let kl = if case < OUT as u64 * 2 { case as usize / 2 + 1 } else { 1 + rng.below(OUT) };
                if rng.chance(2) {
                    p.key(&rng.bytes(OUT)); // leaves nothing behind
                }
                m.key = rng.bytes(kl);
                p.key(&m.key);
                let want = V.hash(&m, msg);
                let got = p.hash(msg);
                ensure!(got.as_bytes() == want, "keyed hash of {} bytes: {} instead of {} with {:?}", n, hex(got.as_bytes()), hex(&want), m);
                let mut s = p.to_state();
                feed(&mut rng, &mut s, msg);
                ensure!(s.finalize().as_bytes() == want, "keyed state after {} bytes: {} instead of {} with {:?}", n, hex(s.finalize().as_bytes()), hex(&want), m);
                let mut jobs: Vec<_> = (0..1 + rng.below(9)).map(|_| HashManyJob::new(&p, msg)).collect();
                hash_many(jobs.iter_mut());
                for j in &jobs {
                    ensure!(j.to_hash().as_bytes() == want, "keyed job on {} bytes: {} instead of {} with {:?}", n, hex(j.to_hash().as_bytes()), hex(&want), m);
                }
                let mut st: Vec<_> = (0..1 + rng.below(9)).map(|_| p.to_state()).collect();
                update_many(st.iter_mut().map(|s| (s, msg)));
                for s in &st {
                    ensure!(s.finalize().as_bytes() == want, "keyed update_many of {} bytes: {} instead of {} with {:?}", n, hex(s.finalize().as_bytes()), hex(&want), m);
                }
                // the empty key
                let mut a = p.clone();
                a.key(b"");
                m.key = vec![];
                ensure!(a.hash(msg).as_bytes() == V.hash(&m, msg), "empty key on {} bytes with {:?}", n, m);
                // tree
                let (mut p, hl, _) = tree_params(&mut rng);
                let key = rng.bytes(kl);
                p.key(&rng.bytes(OUT)).key(&key);
                let want = V.tree(hl, &key, msg);
                ensure!(p.hash(msg).as_bytes() == want, "keyed tree hash of {} bytes, length {}, key {}", n, hl, hex(&key));
                let mut s = p.to_state();
                feed_tree(&mut rng, &mut s, msg);
                ensure!(s.finalize().as_bytes() == want, "keyed tree state after {} bytes, length {}, key {}", n, hl, hex(&key));
                p.key(b"");
                ensure!(p.hash(msg).as_bytes() == V.tree(hl, b"", msg), "empty tree key on {} bytes, length {}", n, hl);
                Ok(())
            }

            // ---- C07 ----
            pub fn last_node(case: u64) -> R {
                let mut rng = Rng(case);
                let (mut p, mut m) = params(&mut rng);
                let n = rng.len(BB, 6);
                let msg = rng.bytes(n);
                m.last_node = true;
                let with = V.hash(&m, &msg);
                m.last_node = false;
                let without = V.hash(&m, &msg);
                for f in [false, true, false] {
                    p.last_node(f);
                    let want = if f { &with } else { &without };
                    ensure!(p.hash(&msg).as_bytes() == *want, "hash of {} bytes with last_node({}) and {:?}", n, f, m);
                    let mut j = [HashManyJob::new(&p, &msg), HashManyJob::new(&p, &msg), HashManyJob::new(&p, &msg)];
                    hash_many(j.iter_mut());
                    ensure!(j[1].to_hash().as_bytes() == *want, "job of {} bytes with last_node({}) and {:?}", n, f, m);
                    let mut s = p.to_state();
                    let cut = rng.below(n + 1);
                    s.update(&msg[..cut]);
                    if rng.chance(2) {
                        s.set_last_node(rng.chance(2));
                        s.finalize();
                    }
                    s.update(&msg[cut..]);
                    let g = rng.chance(2);
                    s.set_last_node(!g);
                    s.set_last_node(g);
                    let want = if g { &with } else { &without };
                    ensure!(s.finalize().as_bytes() == *want, "state with last_node({}) then set_last_node({}) on {} bytes and {:?}", f, g, n, m);
                    s.set_last_node(!g);
                    let want = if !g { &with } else { &without };
                    ensure!(s.finalize().as_bytes() == *want, "state with set_last_node({}) after finalizing, {} bytes and {:?}", !g, n, m);
                }
                let n = rng.len(BB, 5 * V.leaves);
                let msg = rng.bytes(n);
                let (p, hl, key) = tree_params(&mut rng);
                let want = V.tree(hl, &key, &msg);
                ensure!(p.hash(&msg).as_bytes() == want, "tree hash of {} bytes", n);
                ensure!(p.to_state().update(&msg).finalize().as_bytes() == want, "tree state after {} bytes", n);
                Ok(())
            }

            // ---- C08 ----
            pub fn hashing_many(case: u64) -> R {
                let mut rng = Rng(case);
                let nj = if case < 40 { case as usize } else { rng.below(22) };
                let i = some_imp(&mut rng);
                let same = rng.chance(2);
                let mut in_ = vec![];
                for _ in 0..nj {
                    let (mut p, m) = params(&mut rng);
                    if same {
                        force(&mut p, i);
                    }
                    let n = match rng.below(6) { 0 => 0, 1 => 3 * BB, 2 => 1 + rng.below(3), _ => rng.len(BB, 9) };
                    let d = rng.bytes(n);
                    in_.push((p, m, put(&d, &mut rng)));
                }
                let mut jobs: Vec<_> = in_.iter().map(|(p, _, d)| HashManyJob::new(p, d)).collect();
                match rng.below(3) {
                    0 => hash_many(jobs.iter_mut().rev()),
                    1 => {
                        // some first, then all of them: the finished ones are left alone
                        let k = rng.below(nj + 1);
                        hash_many(jobs.iter_mut().take(k));
                        hash_many(jobs.iter_mut());
                    }
                    _ => hash_many(jobs.iter_mut()),
                }
                if rng.chance(3) {
                    hash_many(jobs.iter_mut());
                }
                for (k, (j, (p, m, d))) in jobs.iter().zip(&in_).enumerate() {
                    let (got, want) = (j.to_hash(), p.hash(d));
                    ensure!(got == want, "job {} of {} ({} bytes, lengths {:?}): {} instead of {} with {:?}", k, nj, d.len(),
                        in_.iter().map(|x| x.2.len()).collect::<Vec<_>>(), hex(got.as_bytes()), hex(want.as_bytes()), m);
                    ensure!(j.clone().to_hash() == want, "clone of job {} of {}", k, nj);
                }
                Ok(())
            }

            // ---- C09 ----
            pub fn updating_many(case: u64) -> R {
                let mut rng = Rng(case);
                let ns = if case < 40 { case as usize } else { rng.below(22) };
                let i = some_imp(&mut rng);
                let same = rng.chance(2);
                let mut many = vec![];
                let mut alone = vec![];
                let mut about = vec![];
                for _ in 0..ns {
                    let (mut p, m) = params(&mut rng);
                    if same {
                        force(&mut p, i);
                    }
                    let mut s = p.to_state();
                    if m.key.is_empty() && rng.chance(6) {
                        set_count(&mut s, big(&mut rng, 70 * BB));
                        s.update(&[1]);
                    }
                    let n = rng.len(BB, 3);
                    s.update(&rng.bytes(n));
                    if rng.chance(4) {
                        s.set_last_node(rng.chance(2));
                    }
                    alone.push(s.clone());
                    many.push(s);
                    about.push((m, n));
                }
                for round in 0..1 + rng.below(3) {
                    let ins: Vec<&[u8]> = (0..ns)
                        .map(|_| {
                            let n = match rng.below(5) { 0 => 0, 1 => rng.below(BB), _ => rng.len(BB, 9) };
                            let d = rng.bytes(n);
                            put(&d, &mut rng)
                        })
                        .collect();
                    if rng.chance(2) {
                        update_many(many.iter_mut().zip(ins.iter()));
                    } else {
                        update_many(many.iter_mut().zip(ins.iter()).rev());
                    }
                    for (s, d) in alone.iter_mut().zip(&ins) {
                        s.update(d);
                    }
                    for k in 0..ns {
                        let l: Vec<_> = ins.iter().map(|x| x.len()).collect();
                        ensure!(many[k].count() == alone[k].count(), "round {} state {} of {}: count {} instead of {} (inputs {:?}) {:?}", round, k, ns, many[k].count(), alone[k].count(), l, about[k]);
                        let (a, b) = (many[k].finalize(), alone[k].finalize());
                        ensure!(a == b, "round {} state {} of {}: {} instead of {} (inputs {:?}) {:?}", round, k, ns, hex(a.as_bytes()), hex(b.as_bytes()), l, about[k]);
                        let n = rng.len(BB, 3);
                        let more = rng.bytes(n);
                        let (mut a, mut b) = (many[k].clone(), alone[k].clone());
                        a.update(&more);
                        b.update(&more);
                        ensure!(a.finalize() == b.finalize() && a.count() == b.count(), "round {} state {} of {} (inputs {:?}): differs after {} more bytes {:?}", round, k, ns, l, n, about[k]);
                    }
                }
                Ok(())
            }

            // ---- C10 ----
            pub fn trees(case: u64) -> R {
                let mut rng = Rng(case);
                let unit = BB * V.leaves;
                let n = if case < 3 * unit as u64 / 4 {
                    // around every block boundary of the first three rounds
                    let k = case as usize;
                    (k / 4 * 16 + k % 4).saturating_sub(1)
                } else if rng.chance(2) {
                    rng.len(BB, 4 * V.leaves)
                } else {
                    rng.len(unit, 6)
                };
                let (p, hl, key) = tree_params(&mut rng);
                let msg = rng.bytes(n);
                let msg = put(&msg, &mut rng);
                let want = V.tree(hl, &key, msg);
                let got = p.hash(msg);
                ensure!(got.as_bytes() == want, "tree hash of {} bytes, length {}, key {}: {} instead of {}", n, hl, hex(&key), hex(got.as_bytes()), hex(&want));
                if hl == OUT && key.is_empty() {
                    ensure!(tree::$tf(msg).as_bytes() == want, "one-shot tree function on {} bytes", n);
                    let mut s = if rng.chance(2) { tree::State::new() } else { tree::State::default() };
                    s.update(msg);
                    ensure!(s.finalize().as_bytes() == want, "new tree state after {} bytes", n);
                }
                let mut s = Placed::new(p.to_state());
                feed_tree(&mut rng, &mut s.0, msg);
                let got = s.0.finalize();
                ensure!(got.as_bytes() == want, "tree state after {} bytes in pieces, length {}, key {}: {} instead of {}", n, hl, hex(&key), hex(got.as_bytes()), hex(&want));
                Ok(())
            }

            // ---- C11 ----
            pub fn implementations(case: u64) -> R {
                let mut rng = Rng(case);
                let (mut p, m) = params(&mut rng);
                let n = rng.len(BB, 30);
                let data = rng.bytes(n);
                let data = put(&data, &mut rng);
                let t = big(&mut rng, n);
                let (mut tp, hl, key) = tree_params(&mut rng);
                let nj = rng.below(14);
                let lens: Vec<usize> = (0..nj).map(|_| rng.len(BB, 9).min(n)).collect();
                let mut first: Option<Vec<Hash>> = None;
                for (which, i) in imps().into_iter().enumerate() {
                    force(&mut p, i);
                    force_tree(&mut tp, i);
                    let mut out = vec![p.hash(data), p.to_state().update(data).finalize(), tp.hash(data), tp.to_state().update(data).finalize()];
                    let mut s = p.to_state();
                    if set_count(&mut s, t) {
                        out.push(s.update(data).finalize());
                    }
                    let mut jobs: Vec<_> = lens.iter().map(|l| HashManyJob::new(&p, &data[..*l])).collect();
                    hash_many(jobs.iter_mut());
                    out.extend(jobs.iter().map(|j| j.to_hash()));
                    let mut st: Vec<_> = lens.iter().enumerate().map(|(q, l)| {
                        let mut s = p.to_state();
                        s.update(&data[..n.min(q * 7)]);
                        if q % 3 == 0 { set_count(&mut s, t); }
                        (s, &data[..*l])
                    }).collect();
                    update_many(st.iter_mut().map(|(s, d)| (s, *d)));
                    out.extend(st.iter().map(|(s, _)| s.finalize()));
                    match &first {
                        None => first = Some(out),
                        Some(f) => {
                            for q in 0..f.len() {
                                ensure!(f[q] == out[q], "implementation {} differs from portable in result {} ({} bytes, jobs {:?}, byte {}, tree length {}, key {}) {:?}", which, q, n, lens, t, hl, hex(&key), m);
                            }
                        }
                    }
                }
                ensure!($k::many::degree() <= $k::many::MAX_DEGREE && $k::many::degree() >= 1, "degree {}", $k::many::degree());
                #[cfg(blake2_verify)]
                for i in imps() {
                    ensure!(i.degree() <= $k::many::MAX_DEGREE && i.degree() >= 1, "degree {} of {:?}", i.degree(), i);
                }
                #[cfg(blake2_verify)]
                {
                    let v = imps();
                    let best = v[v.len() - 1];
                    ensure!($k::verify::Implementation::detect().degree() <= best.degree(), "detect() offers more lanes than the best supported implementation");
                    #[cfg(feature = "std")]
                    ensure!($k::verify::Implementation::sse41_if_supported().is_some() == is_x86_feature_detected!("sse4.1"), "sse41_if_supported");
                    #[cfg(feature = "std")]
                    ensure!($k::verify::Implementation::avx2_if_supported().is_some() == is_x86_feature_detected!("avx2"), "avx2_if_supported");
                }
                Ok(())
            }

            // ---- C12: everything at once, at the edge of mapped memory; any panic is a failure ----
            pub fn safety(case: u64) -> R {
                let fs: [fn(u64) -> R; 12] = [digest, parameters, incremental, finalizing, counting, keys, last_node, hashing_many, updating_many, trees, implementations, writing];
                let f = fs[(case % 12) as usize];
                match quiet(|| f(case / 12)) {
                    Ok(_) => Ok(()), // what the results are is decided elsewhere
                    Err(e) => Err(e),
                }
            }

            // ---- C13 ----
            pub fn equality(case: u64) -> R {
                let mut rng = Rng(case);
                let la = if case < OUT as u64 { case as usize + 1 } else { 1 + rng.below(OUT) };
                let lb = if rng.chance(3) { 1 + rng.below(OUT) } else { la };
                let mut p = Params::new();
                let msg = rng.bytes(9);
                let a = p.hash_length(la).hash(&msg);
                let b = p.hash_length(lb).hash(&msg);
                ensure!((a == b) == (a.as_bytes() == b.as_bytes()), "hashes of {} and {} bytes compare {}", la, lb, a == b);
                ensure!((a != b) == (a.as_bytes() != b.as_bytes()), "hashes of {} and {} bytes compare unequal {}", la, lb, a != b);
                let s = a.as_bytes().to_vec();
                ensure!(a == s[..] && a == a.clone(), "a hash of {} bytes is not its own bytes", la);
                ensure!(a != s[..rng.below(la)], "a hash of {} bytes equals a prefix", la);
                let mut longer = s.clone();
                longer.extend(rng.bytes(1 + case as usize % 9));
                ensure!(a != longer[..], "a hash of {} bytes equals a longer slice", la);
                let mut full = [0u8; OUT];
                rng.bytes(OUT).iter().enumerate().for_each(|(i, x)| full[i] = *x);
                for i in 0..OUT {
                    let bit = 1u8 << rng.below(8);
                    let mut o = full;
                    o[i] ^= bit;
                    let (x, y) = (Hash::from(full), Hash::from(&o));
                    ensure!(x != y && !(x == y), "hashes that differ in byte {} bit {:x} compare equal", i, bit);
                    ensure!(x != o[..] && x == full[..], "hash and slice differing in byte {} bit {:x}", i, bit);
                    if i < la {
                        let mut q = s.clone();
                        q[i] ^= bit;
                        let q = put(&q, &mut rng);
                        ensure!(a != *q, "a hash of {} bytes equals a slice differing in byte {}", la, i);
                    }
                }
                // several bytes that cancel out
                let mut o = full;
                let (i, j) = (rng.below(OUT), rng.below(OUT));
                if i != j && full[i] != full[j] {
                    o.swap(i, j);
                    ensure!(Hash::from(full) != Hash::from(o), "hashes with bytes {} and {} swapped compare equal", i, j);
                    let mut o = full;
                    o[i] ^= 0x55;
                    o[j] ^= 0x55;
                    ensure!(Hash::from(full) != Hash::from(o), "hashes that differ by the same bits in bytes {} and {} compare equal", i, j);
                }
                // only the bytes within the length matter
                let (mut p1, mut p2) = (Params::new(), Params::new());
                p1.hash_length(la);
                p2.hash_length(la);
                ensure!(p1.hash(&msg) == p2.to_state().update(&msg).finalize(), "two ways to the same digest differ");
                Ok(())
            }

            // ---- C14 ----
            pub fn views(case: u64) -> R {
                let mut rng = Rng(case);
                let l = if case < OUT as u64 { case as usize + 1 } else { 1 + rng.below(OUT) };
                let mut full = [0u8; OUT];
                rng.bytes(OUT).iter().enumerate().for_each(|(i, x)| full[i] = if case < 256 && i % 3 == 0 { case as u8 } else { *x });
                let check = |h: &Hash, want: &[u8]| -> R {
                    ensure!(h.as_bytes() == want, "as_bytes {} instead of {}", hex(h.as_bytes()), hex(want));
                    ensure!(AsRef::<[u8]>::as_ref(h) == want, "as_ref {} instead of {}", hex(h.as_ref()), hex(want));
                    let x: String = want.iter().map(|b| format!("{:02x}", b)).collect();
                    ensure!(h.to_hex().as_str() == x, "to_hex {} instead of {}", h.to_hex(), x);
                    ensure!(h.as_bytes() == want && *h == want[..], "comparison with its bytes");
                    if want.len() == OUT {
                        ensure!(h.as_array()[..] == *want, "as_array");
                    }
                    Ok(())
                };
                let h = Hash::from(full);
                check(&h, &full)?;
                check(&Hash::from(&full), &full)?;
                check(&h.clone(), &full)?;
                let p = Placed::new(h);
                let c = *p.0;
                check(&c, &full)?;
                let mut q = Params::new();
                q.hash_length(l);
                let n = rng.len(BB, 2);
                let m = rng.bytes(n);
                let a = q.hash(&m);
                ensure!(a.as_bytes().len() == l, "digest of length {} has {} bytes", l, a.as_bytes().len());
                let w = a.as_bytes().to_vec();
                check(&a, &w)?;
                let c = a;
                check(&c, &w)?;
                ensure!(a == c, "copy differs");
                let mut t = tree::Params::new();
                let a = t.hash_length(l).hash(&m);
                ensure!(a.as_bytes().len() == l, "tree digest of length {} has {} bytes", l, a.as_bytes().len());
                let mut j = [HashManyJob::new(&q, &m)];
                hash_many(j.iter_mut());
                ensure!(j[0].to_hash().as_bytes() == w, "job digest {} instead of {}", hex(j[0].to_hash().as_bytes()), hex(&w));
                Ok(())
            }

            // ---- C15 ----
            pub fn debugging(case: u64) -> R {
                let mut rng = Rng(case);
                let mut m = P::new(&V);
                let seed = rng.next();
                let n = rng.below(12);
                let kl = 1 + rng.below(OUT);
                let ml = rng.len(BB, 3);
                let mut out: Vec<Vec<(&'static str, String)>> = vec![];
                for round in 0..2 {
                    let mut r2 = Rng(seed);
                    let mut p = Params::new();
                    setters(&mut r2, n, &mut p, &mut m);
                    let mut r3 = Rng(seed ^ (round + 1) << 20);
                    p.key(&r3.bytes(kl));
                    let msg = r3.bytes(ml);
                    let mut s = p.to_state();
                    let d0 = ("state", format!("{:?}|{:#?}", s, s));
                    s.update(&msg);
                    let d1 = ("updated state", format!("{:?}|{:#?}", s, s));
                    let mut tp = tree::Params::new();
                    tp.hash_length(1 + seed as usize % OUT).key(&r3.bytes(kl));
                    let mut ts = tp.to_state();
                    let d2 = ("tree state", format!("{:?}|{:#?}", ts, ts));
                    ts.update(&msg);
                    let d3 = ("updated tree state", format!("{:?}|{:#?}", ts, ts));
                    let mut j = HashManyJob::new(&p, &msg);
                    let d4 = ("job", format!("{:?}|{:#?}", j, j));
                    hash_many(std::iter::once(&mut j));
                    let d5 = ("finished job", format!("{:?}|{:#?}", j, j));
                    let h = p.hash(&msg);
                    ensure!(format!("{:?}", h).contains(h.to_hex().as_str()), "debug of a digest is {:?}", h);
                    ensure!(format!("{:?}", h) == format!("Hash(0x{})", h.to_hex()), "debug of a digest is {:?}", h);
                    let v = vec![("parameters", format!("{:?}|{:#?}", p, p)), ("tree parameters", format!("{:?}|{:#?}", tp, tp)), d0, d1, d2, d3, d4, d5];
                    out.push(v);
                }
                for (a, b) in out[0].iter().zip(&out[1]) {
                    ensure!(a.1 == b.1, "debug output of {} depends on the key, the message or the words: {} / {}", a.0, a.1, b.1);
                }
                Ok(())
            }

            // ---- C16 ----
            #[cfg(not(feature = "std"))]
            pub fn writing(_: u64) -> R {
                Ok(())
            }
            #[cfg(feature = "std")]
            pub fn writing(case: u64) -> R {
                let mut rng = Rng(case);
                let (p, m) = params(&mut rng);
                let (tp, hl, key) = tree_params(&mut rng);
                let (mut a, mut b) = (p.to_state(), p.to_state());
                let (mut c, mut d) = (tp.to_state(), tp.to_state());
                for _ in 0..1 + rng.below(7) {
                    let n = if rng.chance(2) { rng.len(BB, 3) } else { rng.len(BB, 4 * V.leaves) };
                    let msg = rng.bytes(n);
                    let msg = put(&msg, &mut rng);
                    let r = a.write(msg);
                    ensure!(matches!(r, Ok(k) if k == n), "write of {} bytes gives {:?}", n, r);
                    b.update(msg);
                    let r = c.write(msg);
                    ensure!(matches!(r, Ok(k) if k == n), "tree write of {} bytes gives {:?}", n, r);
                    d.update(msg);
                    ensure!(a.count() == b.count() && a.finalize() == b.finalize(), "write of {} bytes differs from update with {:?}", n, m);
                    ensure!(c.count() == d.count() && c.finalize() == d.finalize(), "tree write of {} bytes differs from update (length {}, key {})", n, hl, hex(&key));
                    if rng.chance(2) {
                        ensure!(a.flush().is_ok() && c.flush().is_ok(), "flush fails");
                        ensure!(a.count() == b.count() && a.finalize() == b.finalize() && c.count() == d.count() && c.finalize() == d.finalize(), "flush changes the state");
                    }
                }
                Ok(())
            }

            // ---- C17 ----
            pub fn ranges(case: u64) -> R {
                let mut rng = Rng(case);
                let (mut p, m) = params(&mut rng);
                let (mut tp, hl, key) = tree_params(&mut rng);
                let over = [1, 2, 100, 256, 1 << 20][rng.below(5)];
                let huge = [usize::MAX, 1 << 32, (1 << 32) + 1, 256 + 1, 1 << 8, 1 << 16, usize::MAX - 255];
                let pick = |rng: &mut Rng, max: usize| if rng.chance(2) { max + over } else { huge[rng.below(huge.len())].max(max + 1) };
                let before = (p.hash(b"abc"), tp.hash(b"abc"), p.to_state().finalize());
                let what = case % 9;
                let zero = rng.chance(4);
                let big_slice = vec![7u8; OUT + over.min(4096)];
                let l = if zero { 0 } else { pick(&mut rng, OUT) };
                let l2 = pick(&mut rng, OUT);
                let key_n = OUT + 1 + rng.below(over.min(4096));
                let s_n = (OUT / 4 + 1 + rng.below(over.min(4096))).min(big_slice.len());
                let off = [1u64 << 48, u64::MAX, (1 << 48) + 5, 1 << 63][rng.below(4)];
                let r = match what {
                    0 => quiet(|| { p.hash_length(l); }),
                    1 => quiet(|| { p.key(&big_slice[..key_n]); }),
                    2 => quiet(|| { p.salt(&big_slice[..s_n]); }),
                    3 => quiet(|| { p.personal(&big_slice[..s_n]); }),
                    4 => quiet(|| { p.inner_hash_length(l2); }),
                    5 => quiet(|| { tp.hash_length(l); }),
                    6 => quiet(|| { tp.key(&big_slice[..key_n]); }),
                    7 if V.w == 32 => quiet(|| { p.node_offset(off); }),
                    _ => Err(String::new()),
                };
                ensure!(r.is_err(), "out-of-range value accepted: setter {}, length {}/{}, slices {}/{}, offset {}", what, l, l2, key_n, s_n, off);
                ensure!(before == (p.hash(b"abc"), tp.hash(b"abc"), p.to_state().finalize()), "a rejected value changed the parameters: setter {}", what);
                // every value within range is accepted, and can be used
                let r = quiet(|| {
                    let mut p = Params::new();
                    p.hash_length(1 + (case as usize % OUT)).key(&big_slice[..case as usize % (OUT + 1)]);
                    p.salt(&big_slice[..case as usize % (OUT / 4 + 1)]).personal(&big_slice[..case as usize / 3 % (OUT / 4 + 1)]);
                    p.inner_hash_length(case as usize % (OUT + 1)).node_offset($offmax - case % 2).node_depth(255).fanout(0).max_depth(0);
                    p.hash(b"x");
                    p.to_state().update(b"x").finalize();
                    let mut j = HashManyJob::new(&p, b"");
                    hash_many(std::iter::once(&mut j));
                    j.to_hash();
                    let mut t = tree::Params::new();
                    t.hash_length(1 + (case as usize % OUT)).key(&big_slice[..case as usize % (OUT + 1)]);
                    t.hash(b"x");
                    t.to_state().update(b"x").finalize();
                });
                ensure!(r.is_ok(), "a value within range was rejected: {:?} (case {})", r, case);
                let _ = (m, hl, key);
                Ok(())
            }

            // ---- the kernels themselves (C11) ----
            #[cfg(blake2_verify)]
            pub fn kernels(case: u64) -> R {
                use $k::verify::{Finalize, Job, LastNode, Stride};
                let mut rng = Rng(case);
                let fin = rng.chance(2);
                let par = rng.chance(3);
                let pad = if par { BB * V.leaves } else { BB };
                let njobs = 8;
                let mut w0 = vec![];
                let mut ins: Vec<&'static [u8]> = vec![];
                let mut meta = vec![];
                let k = rng.below(5);
                for _ in 0..njobs {
                    let mut n = if rng.chance(2) { k * pad } else { rng.len(pad, 4) };
                    if !fin {
                        n = n / BB * BB;
                        if n == 0 { n = BB; }
                    }
                    let d = rng.bytes(n);
                    ins.push(put(&d, &mut rng));
                    let mut w = [0 as $word; 8];
                    for x in w.iter_mut() { *x = rng.next() as $word; }
                    w0.push(w);
                    let t = if rng.chance(2) { big(&mut rng, n) } else { 0 };
                    meta.push((t as $count, rng.chance(3)));
                }
                let run1 = |i: Imp| {
                    let mut w = w0.clone();
                    for q in 0..njobs {
                        i.compress1_loop(ins[q], &mut w[q], meta[q].0, if meta[q].1 { LastNode::Yes } else { LastNode::No },
                            if fin { Finalize::Yes } else { Finalize::No }, if par { Stride::Parallel } else { Stride::Serial });
                    }
                    w
                };
                let base = run1($k::verify::Implementation::portable());
                for i in imps() {
                    ensure!(run1(i) == base, "compress1_loop of {:?} differs from portable (finalize {}, parallel {}, lengths {:?}, {:?})", i, fin, par, ins.iter().map(|x| x.len()).collect::<Vec<_>>(), meta);
                }
                let cases: &[(usize, fn(Imp, &mut [Job], Finalize, Stride), &str)] = $cases;
                for (deg, f, name) in cases {
                    for i in imps() {
                        if i.degree() < *deg { continue; }
                        let mut w = w0.clone();
                        let mut lens = [0; 8];
                        {
                            let mut it = w.iter_mut();
                            let mut jobs: Vec<Job> = (0..*deg).map(|q| Job { input: ins[q], words: it.next().unwrap(), count: meta[q].0,
                                last_node: if meta[q].1 { LastNode::Yes } else { LastNode::No } }).collect();
                            f(i, &mut jobs, if fin { Finalize::Yes } else { Finalize::No }, if par { Stride::Parallel } else { Stride::Serial });
                            // finish what is left one by one
                            for (q, j) in jobs.iter_mut().enumerate() {
                                lens[q] = j.input.len();
                                if !j.input.is_empty() {
                                    i.compress1_loop(j.input, j.words, j.count, j.last_node, if fin { Finalize::Yes } else { Finalize::No }, if par { Stride::Parallel } else { Stride::Serial });
                                }
                            }
                        }
                        ensure!(lens[..*deg].iter().any(|x| *x == 0), "{} of {:?} makes no progress", name, i);
                        ensure!(w[..*deg] == base[..*deg], "{} of {:?} differs from one at a time (finalize {}, parallel {}, lengths {:?}, {:?})", name, i, fin, par, ins.iter().map(|x| x.len()).collect::<Vec<_>>(), meta);
                    }
                }
                Ok(())
            }
            #[cfg(not(blake2_verify))]
            pub fn kernels(_: u64) -> R {
                Ok(())
            }
        }
    };
}

#[cfg(blake2_verify)]
mod adapt {
    macro_rules! ad {
        ($name:ident, $k:ident, $meth:ident, $n:expr) => {
            pub fn $name(i: $k::verify::Implementation, j: &mut [$k::verify::Job], f: $k::verify::Finalize, s: $k::verify::Stride) {
                i.$meth(j.try_into().unwrap(), f, s)
            }
        };
    }
    ad!(b2, blake2b_simd, compress2_loop, 2);
    ad!(b4, blake2b_simd, compress4_loop, 4);
    ad!(s4, blake2s_simd, compress4_loop, 4);
    ad!(s8, blake2s_simd, compress8_loop, 8);
}
variant!(b, blake2b_simd, blake2b, blake2bp, blake2bp, reference::B, u128, u64, u64::MAX, &[(2, adapt::b2, "compress2_loop"), (4, adapt::b4, "compress4_loop")]);
variant!(s, blake2s_simd, blake2s, blake2sp, blake2sp, reference::S, u64, u32, (1u64 << 48) - 1, &[(4, adapt::s4, "compress4_loop"), (8, adapt::s8, "compress8_loop")]);


type F = fn(u64) -> R;
pub fn all() -> Vec<(&'static str, F)> {
    macro_rules! both {
        ($($n:ident)*) => { vec![$( (concat!("b:", stringify!($n)), b::$n as F), (concat!("s:", stringify!($n)), s::$n as F), )*] };
    }
    both!(digest parameters incremental finalizing counting keys last_node hashing_many updating_many trees implementations safety equality views debugging writing ranges kernels)
}

/// digests by the reference, for comparison with an independent implementation (Python's hashlib)
pub fn vectors() {
    for (name, v) in [("b", reference::B), ("s", reference::S)] {
        let mut rng = Rng(99);
        for i in 0..60 {
            let n = rng.len(v.block(), 4);
            let msg = rng.bytes(n);
            let kl = if i % 3 == 0 { 0 } else { rng.below(v.out() + 1) };
            let key = rng.bytes(kl);
            let mut p = P::new(&v);
            p.key = key;
            p.hash_length = 1 + rng.below(v.out());
            p.salt = rng.bytes(v.out() / 4);
            p.personal = rng.bytes(v.out() / 4);
            p.fanout = rng.next() as u8;
            p.max_depth = 1 + (rng.next() % 255) as u8;
            p.max_leaf_length = rng.next() as u32;
            p.node_offset = rng.next() & ((1 << 48) - 1);
            p.node_depth = rng.next() as u8;
            p.inner_hash_length = rng.below(v.out() + 1);
            p.last_node = rng.chance(2);
            let h = |b: &[u8]| -> String { b.iter().map(|x| format!("{:02x}", x)).collect() };
            println!("{} {} {} {} {} {} {} {} {} {} {} {} {} {}", name, h(&msg) + "-", h(&p.key) + "-", p.hash_length, h(&p.salt), h(&p.personal), p.fanout,
                p.max_depth, p.max_leaf_length, p.node_offset, p.node_depth, p.inner_hash_length, p.last_node as u8, h(&v.hash(&p, &msg)));
        }
    }
}

fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}

/// what the library gives: each line of the standard input is `b|bp|s|sp FILE name=value...`
pub fn digests() {
    for line in std::io::stdin().lines() {
        let line = line.unwrap();
        let f: Vec<&str> = line.split(' ').collect();
        let data = std::fs::read(f[1]).unwrap();
        macro_rules! full {
            ($k:ident) => {{
                let mut p = $k::Params::new();
                for kv in &f[2..] {
                    let (k, v) = kv.split_once('=').unwrap();
                    match k {
                        "length" => p.hash_length(v.parse().unwrap()),
                        "key" => p.key(&unhex(v)),
                        "salt" => p.salt(&unhex(v)),
                        "personal" => p.personal(&unhex(v)),
                        "fanout" => p.fanout(v.parse().unwrap()),
                        "max-depth" => p.max_depth(v.parse().unwrap()),
                        "max-leaf-length" => p.max_leaf_length(v.parse().unwrap()),
                        "node-offset" => p.node_offset(v.parse().unwrap()),
                        "node-depth" => p.node_depth(v.parse().unwrap()),
                        "inner-hash-length" => p.inner_hash_length(v.parse().unwrap()),
                        "last-node" => p.last_node(true),
                        _ => panic!("{}", k),
                    };
                }
                p.hash(&data)
            }};
        }
        macro_rules! tree {
            ($k:ident, $t:ident) => {{
                let mut p = $k::$t::Params::new();
                for kv in &f[2..] {
                    let (k, v) = kv.split_once('=').unwrap();
                    match k {
                        "length" => p.hash_length(v.parse().unwrap()),
                        "key" => p.key(&unhex(v)),
                        _ => panic!("{}", k),
                    };
                }
                p.hash(&data)
            }};
        }
        match f[0] {
            "b" => println!("{}", hexall(full!(blake2b_simd).as_bytes())),
            "s" => println!("{}", hexall(full!(blake2s_simd).as_bytes())),
            "bp" => println!("{}", hexall(tree!(blake2b_simd, blake2bp).as_bytes())),
            "sp" => println!("{}", hexall(tree!(blake2s_simd, blake2sp).as_bytes())),
            _ => panic!(),
        }
    }
}
fn hexall(b: &[u8]) -> String {
    b.iter().map(|x| format!("{:02x}", x)).collect()
}
