//! BLAKE2 written from RFC 7693 and the BLAKE2 paper, independent of the code under test.

const SIGMA: [[usize; 16]; 10] = [
    [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15],
    [14, 10, 4, 8, 9, 15, 13, 6, 1, 12, 0, 2, 11, 7, 5, 3],
    [11, 8, 12, 0, 5, 2, 15, 13, 10, 14, 3, 6, 7, 1, 9, 4],
    [7, 9, 3, 1, 13, 12, 11, 14, 2, 6, 5, 10, 4, 0, 15, 8],
    [9, 0, 5, 7, 2, 4, 10, 15, 14, 1, 11, 12, 6, 8, 3, 13],
    [2, 12, 6, 10, 0, 11, 8, 3, 4, 13, 7, 5, 15, 14, 1, 9],
    [12, 5, 1, 15, 14, 13, 4, 10, 0, 7, 6, 3, 9, 2, 8, 11],
    [13, 11, 7, 14, 12, 1, 3, 9, 5, 0, 15, 4, 8, 6, 2, 10],
    [6, 15, 14, 9, 11, 3, 0, 8, 12, 2, 13, 7, 1, 4, 10, 5],
    [10, 2, 8, 4, 7, 6, 1, 5, 15, 11, 9, 14, 3, 12, 13, 0],
];

#[derive(Clone, Copy, Debug)]
pub struct V {
    pub w: u32,
    pub rounds: usize,
    pub rot: [u32; 4],
    pub iv: [u64; 8],
    pub leaves: usize,
}

pub const B: V = V {
    w: 64,
    rounds: 12,
    rot: [32, 24, 16, 63],
    iv: [
        0x6a09e667f3bcc908, 0xbb67ae8584caa73b, 0x3c6ef372fe94f82b, 0xa54ff53a5f1d36f1,
        0x510e527fade682d1, 0x9b05688c2b3e6c1f, 0x1f83d9abfb41bd6b, 0x5be0cd19137e2179,
    ],
    leaves: 4,
};
pub const S: V = V {
    w: 32,
    rounds: 10,
    rot: [16, 12, 8, 7],
    iv: [
        0x6a09e667, 0xbb67ae85, 0x3c6ef372, 0xa54ff53a, 0x510e527f, 0x9b05688c, 0x1f83d9ab, 0x5be0cd19,
    ],
    leaves: 8,
};

impl V {
    pub fn wb(&self) -> usize {
        self.w as usize / 8
    }
    pub fn block(&self) -> usize {
        16 * self.wb()
    }
    pub fn out(&self) -> usize {
        8 * self.wb()
    }
    fn mask(&self) -> u64 {
        if self.w == 64 { !0 } else { 0xffff_ffff }
    }
    fn rotr(&self, x: u64, r: u32) -> u64 {
        ((x >> r) | (x << (self.w - r))) & self.mask()
    }

    pub fn f(&self, h: &mut [u64; 8], block: &[u8], t: u128, last: bool, last_node: bool) {
        let wb = self.wb();
        let mut m = [0u64; 16];
        for i in 0..16 {
            for j in 0..wb {
                m[i] |= (block[i * wb + j] as u64) << (8 * j);
            }
        }
        let mut v = [0u64; 16];
        v[..8].copy_from_slice(h);
        v[8..].copy_from_slice(&self.iv);
        v[12] ^= (t as u64) & self.mask();
        v[13] ^= ((t >> self.w) as u64) & self.mask();
        if last {
            v[14] ^= self.mask();
        }
        if last_node {
            v[15] ^= self.mask();
        }
        for r in 0..self.rounds {
            let s = &SIGMA[r % 10];
            let mut g = |a: usize, b: usize, c: usize, d: usize, x: u64, y: u64| {
                v[a] = v[a].wrapping_add(v[b]).wrapping_add(x) & self.mask();
                v[d] = self.rotr(v[d] ^ v[a], self.rot[0]);
                v[c] = v[c].wrapping_add(v[d]) & self.mask();
                v[b] = self.rotr(v[b] ^ v[c], self.rot[1]);
                v[a] = v[a].wrapping_add(v[b]).wrapping_add(y) & self.mask();
                v[d] = self.rotr(v[d] ^ v[a], self.rot[2]);
                v[c] = v[c].wrapping_add(v[d]) & self.mask();
                v[b] = self.rotr(v[b] ^ v[c], self.rot[3]);
            };
            g(0, 4, 8, 12, m[s[0]], m[s[1]]);
            g(1, 5, 9, 13, m[s[2]], m[s[3]]);
            g(2, 6, 10, 14, m[s[4]], m[s[5]]);
            g(3, 7, 11, 15, m[s[6]], m[s[7]]);
            g(0, 5, 10, 15, m[s[8]], m[s[9]]);
            g(1, 6, 11, 12, m[s[10]], m[s[11]]);
            g(2, 7, 8, 13, m[s[12]], m[s[13]]);
            g(3, 4, 9, 14, m[s[14]], m[s[15]]);
        }
        for i in 0..8 {
            h[i] ^= v[i] ^ v[i + 8];
        }
    }

    /// absorb all of `data` (the rest of the message, never empty unless the message is) after `t0` bytes
    pub fn finish(&self, h0: &[u64; 8], t0: u128, data: &[u8], last_node: bool) -> [u64; 8] {
        let b = self.block();
        let mut h = *h0;
        let n = if data.is_empty() { 1 } else { (data.len() + b - 1) / b };
        for i in 0..n {
            let lo = i * b;
            let hi = ((i + 1) * b).min(data.len());
            let mut blk = vec![0u8; b];
            blk[..hi - lo].copy_from_slice(&data[lo..hi]);
            self.f(&mut h, &blk, t0.wrapping_add(hi as u128), i + 1 == n, i + 1 == n && last_node);
        }
        h
    }

    pub fn bytes(&self, h: &[u64; 8], n: usize) -> Vec<u8> {
        let mut o = vec![];
        for w in h {
            o.extend_from_slice(&w.to_le_bytes()[..self.wb()]);
        }
        o.truncate(n);
        o
    }

    pub fn hash(&self, p: &P, msg: &[u8]) -> Vec<u8> {
        let mut data = vec![];
        if !p.key.is_empty() {
            data.extend_from_slice(&p.key);
            data.resize(self.block(), 0);
        }
        data.extend_from_slice(msg);
        let h = self.finish(&p.words(self), 0, &data, p.last_node);
        self.bytes(&h, p.hash_length)
    }

    /// BLAKE2bp / BLAKE2sp
    pub fn tree(&self, hash_length: usize, key: &[u8], msg: &[u8]) -> Vec<u8> {
        let (b, n) = (self.block(), self.leaves);
        let base = P {
            hash_length,
            key: key.to_vec(),
            fanout: n as u8,
            max_depth: 2,
            inner_hash_length: self.out(),
            ..P::new(self)
        };
        let mut root_in = vec![];
        for i in 0..n {
            let mut part = vec![];
            let mut off = i * b;
            while off < msg.len() {
                part.extend_from_slice(&msg[off..msg.len().min(off + b)]);
                off += n * b;
            }
            // a leaf produces its whole chaining value, whatever the digest length of the tree is
            let p = P { node_offset: i as u64, last_node: i + 1 == n, ..base.clone() };
            let mut data = vec![];
            if !key.is_empty() {
                data.extend_from_slice(key);
                data.resize(b, 0);
            }
            data.extend_from_slice(&part);
            let h = self.finish(&p.words(self), 0, &data, p.last_node);
            root_in.extend(self.bytes(&h, self.out()));
        }
        let p = P { node_depth: 1, last_node: true, ..base.clone() };
        let h = self.finish(&p.words(self), 0, &root_in, true);
        self.bytes(&h, hash_length)
    }
}

#[derive(Clone, Debug)]
pub struct P {
    pub hash_length: usize,
    pub key: Vec<u8>,
    pub salt: Vec<u8>,
    pub personal: Vec<u8>,
    pub fanout: u8,
    pub max_depth: u8,
    pub max_leaf_length: u32,
    pub node_offset: u64,
    pub node_depth: u8,
    pub inner_hash_length: usize,
    pub last_node: bool,
}

impl P {
    pub fn new(v: &V) -> P {
        P {
            hash_length: v.out(),
            key: vec![],
            salt: vec![],
            personal: vec![],
            fanout: 1,
            max_depth: 1,
            max_leaf_length: 0,
            node_offset: 0,
            node_depth: 0,
            inner_hash_length: 0,
            last_node: false,
        }
    }
    pub fn block(&self, v: &V) -> Vec<u8> {
        let mut b = vec![self.hash_length as u8, self.key.len() as u8, self.fanout, self.max_depth];
        b.extend_from_slice(&self.max_leaf_length.to_le_bytes());
        if v.w == 64 {
            b.extend_from_slice(&self.node_offset.to_le_bytes());
            b.push(self.node_depth);
            b.push(self.inner_hash_length as u8);
            b.resize(32, 0);
        } else {
            b.extend_from_slice(&self.node_offset.to_le_bytes()[..6]);
            b.push(self.node_depth);
            b.push(self.inner_hash_length as u8);
        }
        let n = 2 * v.wb();
        let mut s = self.salt.clone();
        s.resize(n, 0);
        b.extend(s);
        let mut s = self.personal.clone();
        s.resize(n, 0);
        b.extend(s);
        assert_eq!(b.len(), v.out());
        b
    }
    pub fn words(&self, v: &V) -> [u64; 8] {
        let b = self.block(v);
        let mut h = v.iv;
        for i in 0..8 {
            for j in 0..v.wb() {
                h[i] ^= (b[i * v.wb() + j] as u64) << (8 * j);
            }
        }
        h
    }
}
