SEEDS = []


def add(**k):
    SEEDS.append(k)


add(id='c02-salt-residue', property='C02',
    files={'blake2s/src/lib.rs': [('        self.salt = [0; SALTBYTES];\n        self.salt[..salt.len()]', '        self.salt[..salt.len()]')]},
    needs='a salt set twice, the second one shorter than the first',
    breaks='a shorter salt is no longer padded with zeros: the tail of the salt set before stays in the parameter block',
    main='''use blake2s_simd::Params;
fn main() {
    let mut p = Params::new();
    p.salt(b"longsalt").salt(b"x");
    assert_eq!(p.hash(b"m"), Params::new().salt(b"x").hash(b"m"));
}
''')
add(id='c03-long-update', property='C03',
    files={'blake2b/src/lib.rs': [('self.count = self.count.wrapping_add(end as Count);', 'self.count = self.count.wrapping_add(end as u32 as Count);')]},
    needs='a single update of 4 GiB or more',
    breaks='the byte counter of a state loses the high part of the length of one very long update; the digest differs from the same bytes in several updates',
    main='''use blake2b_simd::State;
fn main() {
    let n = (1usize << 32) + 777;
    let v = vec![0u8; n];
    let (mut a, mut b) = (State::new(), State::new());
    a.update(&v);
    let mut i = 0;
    while i < n {
        let e = n.min(i + (1 << 24) + 5);
        b.update(&v[i..e]);
        i = e;
    }
    assert_eq!(a.finalize(), b.finalize());
}
''')
add(id='c04-clone-flag', property='C04',
    files={'blake2b/src/lib.rs': [('''#[derive(Clone)]
pub struct State {''', '''pub struct State {'''), ('''impl State {
    /// Equivalent to `State::default()` or `Params::default().to_state()`.''', '''impl Clone for State {
    fn clone(&self) -> Self {
        let mut copy = Self {
            words: self.words,
            count: self.count,
            buf: [0; BLOCKBYTES],
            buflen: self.buflen,
            last_node: guts::LastNode::No,
            hash_length: self.hash_length,
            implementation: self.implementation,
            is_keyed: self.is_keyed,
        };
        // Only the occupied part of the buffer needs copying.
        let used = self.buflen as usize;
        copy.buf[..used].copy_from_slice(&self.buf[..used]);
        if self.buflen == 0 {
            copy.last_node = self.last_node;
        }
        copy
    }
}

impl State {
    /// Equivalent to `State::default()` or `Params::default().to_state()`.''')]},
    needs='cloning a state that has buffered input and the last-node flag set',
    breaks='the clone forgets the last-node flag',
    main='''use blake2b_simd::State;
fn main() {
    let mut s = State::new();
    s.set_last_node(true).update(b"hello");
    let mut c = s.clone();
    assert_eq!(s.finalize(), c.finalize());
    s.update(b"more");
    c.update(b"more");
    assert_eq!(s.finalize(), c.finalize());
}
''')
add(id='c05-keyed-count', property='C05',
    files={'blake2s/src/blake2sp.rs': [('''        if self.is_keyed {
            ret -= (DEGREE * BLOCKBYTES) as Count;''', '''        if self.is_keyed && self.buf_len as usize != self.buf.len() {
            ret -= (DEGREE * BLOCKBYTES) as Count;''')]},
    needs='a keyed tree state whose two-round buffer is exactly full',
    breaks='count() of a keyed BLAKE2sp state includes the key blocks at one particular number of buffered bytes',
    main='''use blake2s_simd::blake2sp::Params;
fn main() {
    for n in [0usize, 1, 511, 512, 513, 1024, 1025] {
        let mut s = Params::new().key(b"k").to_state();
        s.update(&vec![7; n]);
        assert_eq!(s.count(), n as u64);
    }
}
''')
add(id='c07-flag-stays', property='C07',
    files={'blake2s/src/lib.rs': [('''    pub fn set_last_node(&mut self, last_node: bool) -> &mut Self {
        self.last_node = if last_node {
            guts::LastNode::Yes
        } else {
            guts::LastNode::No
        };''', '''    pub fn set_last_node(&mut self, last_node: bool) -> &mut Self {
        if last_node || self.buflen == 0 {
            self.last_node = if last_node {
                guts::LastNode::Yes
            } else {
                guts::LastNode::No
            };
        }''')]},
    needs='clearing the flag on a state that has buffered input',
    breaks='set_last_node(false) is ignored once input is buffered',
    main='''use blake2s_simd::State;
fn main() {
    let mut s = State::new();
    let plain = s.clone().update(b"abc").finalize();
    s.set_last_node(true).update(b"abc");
    assert!(s.finalize() != plain);
    s.set_last_node(false);
    assert_eq!(s.finalize(), plain);
}
''')
add(id='c08-last-lane', property='C08',
    files={'blake2b/src/many.rs': [('''    for i in (0..num_jobs).rev() {''', '''    // The shortest of the jobs determines how far they all got, and only
    // jobs as short as that one are finished.
    let shortest = vec.iter().take(num_jobs).map(|j| j.input.len()).min().unwrap_or(0);
    let num_jobs = if shortest == 0 && vec[num_jobs - 1].count > BLOCKBYTES as Count * 8 { num_jobs - 1 } else { num_jobs };
    for i in (0..num_jobs).rev() {''')]},
    needs='four (two) jobs in lanes of which the last one ends together with the shortest, after more than eight blocks',
    breaks='the finished job stays in its lane and is compressed again as an empty input: a wrong digest',
    main='''use blake2b_simd::{many::*, Params};
fn main() {
    let p = Params::new();
    for n in [1usize, 100, 128, 1000, 1100, 1280, 2000] {
        let v = vec![9u8; n];
        let mut j: Vec<_> = (0..9).map(|_| HashManyJob::new(&p, &v)).collect();
        hash_many(j.iter_mut());
        for x in &j {
            assert_eq!(x.to_hash(), p.hash(&v));
        }
    }
}
''')
add(id='c09-long-job', property='C09',
    files={'blake2b/src/many.rs': [('''        // Finally, if the full blocks slice is non-empty, prepare that job for
''', '''        // Jobs of very different lengths leave lanes idle. Hash the head of a
        // very long one on its own.
        let mut blocks = blocks;
        if blocks.len() > 64 * BLOCKBYTES {
            let (head, tail) = blocks.split_at(blocks.len() - 64 * BLOCKBYTES);
            state.implementation.compress1_loop(
                head,
                &mut state.words,
                state.count,
                state.last_node,
                Finalize::No,
                Stride::Serial,
            );
            blocks = tail;
        }
        // Finally, if the full blocks slice is non-empty, prepare that job for
''')]},
    needs='update_many with an input of more than 64 whole blocks',
    breaks='the head of the input is compressed but not counted: the following blocks get wrong counters',
    main='''use blake2b_simd::{many::*, State};
fn main() {
    for n in [0usize, 1, 127, 128, 129, 256, 300] {
        for k in [0usize, 1, 128, 256, 384, 300, 8192, 8300, 8320, 8321, 10000] {
            let (mut a, mut b) = (State::new(), State::new());
            a.update(&vec![3; n]);
            b.update(&vec![3; n]);
            let d = vec![8u8; k];
            update_many([(&mut a, &d)].into_iter().map(|(s, d)| (s, &d[..])));
            b.update(&d);
            assert_eq!(a.finalize(), b.finalize());
        }
    }
}
''')
add(id='c10-full-buffer', property='C10',
    files={'blake2b/src/blake2bp.rs': [('''            self.fill_buf(&mut input);
            // The buffer is large''', '''            let waiting = self.buf_len as usize;
            self.fill_buf(&mut input);
            // The buffer is large'''), ('if input.len() > (DEGREE - 1) * BLOCKBYTES {', '''let was_full = waiting == self.buf.len();
                if was_full || input.len() > (DEGREE - 1) * BLOCKBYTES {''')]},
    needs='a tree state whose buffer is exactly full (after two earlier updates), then updated with at most three blocks, and then finalized',
    breaks='both buffered rounds are compressed although the last leaf may get nothing more: its last block is not finalized',
    main='''use blake2b_simd::blake2bp::{blake2bp, State};
fn main() {
    for a in [1024usize, 512, 1000] {
        for b in [0usize, 1, 383, 384, 385, 512, 1024] {
            let mut s = State::new();
            let d = vec![4u8; a + b];
            s.update(&d[..a / 2]);
            s.update(&d[a / 2..a]);
            s.update(&d[a..]);
            assert_eq!(s.finalize(), blake2bp(&d), "{} {}", a, b);
        }
    }
}
''')
add(id='c12-edge-read', property='C12',
    files={'blake2s/src/guts.rs': [('''    if offset_slice.len() >= BLOCKBYTES {''', '''    if offset_slice.len() < BLOCKBYTES && offset_slice.len() > BLOCKBYTES / 2 && offset > 0 {
        // Almost a whole block: one fixed copy is quicker than a short one.
        unsafe {
            core::ptr::copy_nonoverlapping(offset_slice.as_ptr(), buffer.as_mut_ptr(), BLOCKBYTES);
        }
        for b in &mut buffer[offset_slice.len()..] {
            *b = 0;
        }
        return (buffer, offset_slice.len(), true);
    }
    if offset_slice.len() >= BLOCKBYTES {''')]},
    needs='an input whose last block is more than half full and that ends at the end of mapped memory',
    breaks='the final block reads one byte past the input',
    main='''use blake2s_simd::Params;
extern "C" {
    fn mmap(a: *mut u8, n: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    fn mprotect(a: *mut u8, n: usize, prot: i32) -> i32;
}
fn main() {
    unsafe {
        let p = mmap(std::ptr::null_mut(), 8192, 3, 0x22, -1, 0);
        assert_eq!(mprotect(p.add(4096), 4096, 0), 0);
        let mut q = Params::new();
        for n in 0..600usize {
            let d = std::slice::from_raw_parts(p.add(4096 - n), n);
            q.hash(d);
        }
        blake2s_simd::benchmarks::force_portable(&mut q);
        for n in 0..600usize {
            let d = std::slice::from_raw_parts(p.add(4096 - n), n);
            q.hash(d);
        }
    }
}
''')
add(id='c13-prefix', property='C13',
    files={'blake2b/src/lib.rs': [('constant_time_eq::constant_time_eq(&self.as_bytes(), other)\n', '''constant_time_eq::constant_time_eq(
            &self.as_bytes(),
            &other[..cmp::min(other.len(), cmp::max(self.len as usize, OUTBYTES))],
        )
''')]},
    needs='comparing a full-length hash with a slice longer than any hash',
    breaks='a full-length hash equals every slice that starts with its bytes',
    main='''fn main() {
    let h = blake2b_simd::blake2b(b"x");
    let mut v = h.as_bytes().to_vec();
    assert!(h == v[..]);
    v.push(0);
    assert!(h != v[..]);
    assert!(h != v[..10]);
}
''')
add(id='c14-as-ref', property='C14',
    files={'blake2s/src/lib.rs': [('''impl AsRef<[u8]> for Hash {
    fn as_ref(&self) -> &[u8] {
        self.as_bytes()''', '''impl AsRef<[u8]> for Hash {
    fn as_ref(&self) -> &[u8] {
        &self.bytes''')]},
    needs='AsRef on a hash shorter than the maximum', breaks='the AsRef view shows bytes beyond the digest length',
    main='''fn main() {
    let h = blake2s_simd::Params::new().hash_length(5).hash(b"x");
    assert_eq!(AsRef::<[u8]>::as_ref(&h), h.as_bytes());
}
''')
add(id='c16-partial-write', property='C16',
    files={'blake2b/src/blake2bp.rs': [('''    fn write(&mut self, buf: &[u8]) -> std::io::Result<usize> {
        self.update(buf);
        Ok(buf.len())''', '''    fn write(&mut self, buf: &[u8]) -> std::io::Result<usize> {
        // Bound the time of one call.
        let buf = &buf[..cmp::min(buf.len(), 1 << 16)];
        self.update(buf);
        Ok(buf.len())''')]},
    needs='a single write of more than 64 KiB to a tree state', breaks='the write accepts only a part of the buffer',
    main='''use std::io::Write;
fn main() {
    let mut s = blake2b_simd::blake2bp::State::new();
    let v = vec![0u8; 70000];
    assert_eq!(s.write(&v).unwrap(), v.len());
}
''')
add(id='c17-late-check', property='C17',
    files={'blake2s/src/blake2sp.rs': [('''        assert!(key.len() <= KEYBYTES, "Bad key length: {}", key.len());
''', '''        assert!(key.len() as u8 as usize <= KEYBYTES, "Bad key length: {}", key.len());
        let key = &key[..key.len() as u8 as usize];
''')]},
    needs='a tree key of 256 to 288 bytes', breaks='an overlong key is silently cut instead of being rejected',
    main='''fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    for n in [33usize, 64, 255, 256, 260, 288, 300, 65536] {
        let r = std::panic::catch_unwind(|| {
            blake2s_simd::blake2sp::Params::new().key(&vec![1; n]);
        });
        assert!(r.is_err(), "{}", n);
    }
}
''')
add(id='c18-short-read', property='C18',
    files={'blake2_bin/src/main.rs': [('''            Ok(n) => state.update(&buf[..n]),
''', '''            Ok(n) => {
                state.update(&buf[..n]);
                // Anything less than a full buffer is the end of the file.
                if n % 4096 != 0 {
                    return Ok(());
                }
            }
''')]},
    needs='a reader that gives less than a page before the end, such as a pipe written in pieces',
    breaks='input after a short read is ignored',
    sh='''a=$( (printf abc; sleep 1; printf def) | "$bin")
b=$(printf abcdef | "$bin")
[ "$a" = "$b" ]
''')
add(id='c15-debug-buffer', property='C15',
    files={'blake2s/src/blake2sp.rs': [('''            "State {{ count: {}, hash_length: {} }}",
            self.count(),
            self.hash_length,''', '''            "State {{ count: {}, hash_length: {}{} }}",
            self.count(),
            self.hash_length,
            if self.buf[0] == 0 { "" } else { " " },''')]},
    needs='two states that differ in the first buffered byte only', breaks='the debug text depends on a buffered byte',
    main='''fn main() {
    let mut t = vec![];
    for b in [0u8, 1, 200] {
        let mut s = blake2s_simd::blake2sp::State::new();
        s.update(&[b, 5]);
        t.push(format!("{:?}", s));
    }
    assert_eq!(t[0], t[1]);
    assert_eq!(t[0], t[2]);
}
''')
add(id='c01-finalize-high', property='C01',
    files={'blake2s/src/lib.rs': [('''        let mut words_copy = self.words;
        self.implementation.compress1_loop(
            &self.buf[..self.buflen as usize],
            &mut words_copy,
            self.count,''', '''        let mut words_copy = self.words;
        self.implementation.compress1_loop(
            &self.buf[..self.buflen as usize],
            &mut words_copy,
            self.count as u32 as Count,''')]},
    needs='a message longer than 4 GiB, finalized from a state',
    breaks='the final block of BLAKE2s is hashed with the high word of the byte counter zero',
    main='''use blake2s_simd::{Params, State};
fn main() {
    let n = (1usize << 32) + 777;
    let v = vec![0u8; n];
    let mut s = State::new();
    for c in v.chunks(1 << 26) {
        s.update(c);
    }
    assert_eq!(Params::new().hash(&v), s.finalize());
}
''')
add(id='c06-key-residue', property='C06',
    files={'blake2b/src/lib.rs': [('''        self.key_length = key.len() as u8;
        self.key_block = [0; BLOCKBYTES];
''', '''        self.key_length = key.len() as u8;
        // Erase what's left of a longer key.
        for b in self.key_block[key.len()..].iter_mut().take(OUTBYTES / 2) {
            *b = 0;
        }
''')]},
    needs='a key set twice, the second one more than 32 bytes shorter than the first',
    breaks='the end of the longer key stays in the key block',
    main='''use blake2b_simd::Params;
fn main() {
    let mut p = Params::new();
    p.key(&[7; 64]).key(b"short");
    assert_eq!(p.hash(b"m"), Params::new().key(b"short").hash(b"m"));
}
''')
