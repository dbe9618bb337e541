//! MODEL of tiny-keccak used for symbolic execution only.
//!
//! Every function of the SHA-3 family is an ideal random function: the table
//! below maps each distinct (function, key, customisation, message) to a
//! distinct output stream. Two queries return the same bytes iff their inputs
//! are equal, so the model is deterministic and collision free. Outputs carry
//! no information about the inputs. When inputs are symbolic the equality test
//! is decided by the solver (the engine forks on it).
#![allow(static_mut_refs)]

struct Rec {
    kind: u8,
    outlen: u64,
    key: Vec<u8>,
    custom: Vec<u8>,
    msg: Vec<u8>,
}
static mut TABLE: Vec<Rec> = Vec::new();
extern "C" {
    /// A hash of constant bytes; zero if one of them is symbolic.
    fn sym_hash(p: *const u8, n: u64, seed: u64) -> u64;
}
const BUCKETS: usize = 1024;
const NONE: Vec<u32> = Vec::new();
/// The queries on constants, by hash, and the other ones.
static mut INDEX: [Vec<u32>; BUCKETS] = [NONE; BUCKETS];
static mut OTHERS: Vec<u32> = Vec::new();

fn hash(seed: u64, x: &[u8]) -> u64 {
    if seed == 0 { 0 } else { unsafe { sym_hash(x.as_ptr(), x.len() as u64, seed) } }
}

fn same(a: &[u8], b: &[u8]) -> bool {
    a.len() == b.len() && a == b
}

fn oracle(kind: u8, outlen: u64, key: &[u8], custom: &[u8], msg: &[u8]) -> u32 {
    let t = unsafe { &mut TABLE };
    let is = |i: u32| -> bool {
        let r = &t[i as usize];
        r.kind == kind
            && r.outlen == outlen
            && r.msg.len() == msg.len()
            && r.key.len() == key.len()
            && same(&r.custom, custom)
            && same(&r.key, key)
            && same(&r.msg, msg)
    };
    let h = hash(hash(hash(1 + kind as u64 + (outlen << 8), key), custom), msg);
    let (index, others) = unsafe { (&mut INDEX, &mut OTHERS) };
    let bucket = &mut index[(h >> 1) as usize % BUCKETS];
    if h == 0 {
        for i in 0..t.len() as u32 { if is(i) { return i; } }
        others.push(t.len() as u32);
    } else {
        for i in bucket.iter() { if is(*i) { return *i; } }
        for i in others.iter() { if is(*i) { return *i; } }
        bucket.push(t.len() as u32);
    }
    t.push(Rec {
        kind,
        outlen,
        key: key.to_vec(),
        custom: custom.to_vec(),
        msg: msg.to_vec(),
    });
    (t.len() - 1) as u32
}

/// Output stream of entry `id`: 8-byte cells `[id:3][cell:2][tag:3]`, all
/// cells of all entries pairwise distinct and non-zero.
fn stream(id: u32, from: usize, out: &mut [u8]) {
    let mut k = 0;
    while k < out.len() {
        let p = from + k;
        let cell = (p / 8) as u16;
        let b = match p % 8 {
            0 => 0xA5,
            1 => id as u8,
            2 => (id >> 8) as u8,
            3 => (id >> 16) as u8,
            4 => cell as u8,
            5 => (cell >> 8) as u8,
            6 => 0x3C,
            _ => 0xE1,
        };
        out[k] = b;
        k += 1;
    }
}

pub trait Hasher {
    fn update(&mut self, input: &[u8]);
    fn finalize(self, output: &mut [u8]);
}
pub trait IntoXof {
    type Xof: Xof;
    fn into_xof(self) -> Self::Xof;
}
pub trait Xof {
    fn squeeze(&mut self, output: &mut [u8]);
}

macro_rules! plain {
    ($name:ident, $kind:expr, [$($f:ident = $b:expr),*]) => {
        #[derive(Clone)]
        pub struct $name { bits: u8, buf: Vec<u8>, pos: usize }
        impl $name {
            $(pub fn $f() -> Self { Self { bits: $b, buf: Vec::new(), pos: 0 } })*
        }
        impl Hasher for $name {
            fn update(&mut self, input: &[u8]) { self.buf.extend_from_slice(input); }
            fn finalize(self, output: &mut [u8]) {
                let id = oracle($kind + self.bits, 0, &[], &[], &self.buf);
                stream(id, 0, output);
            }
        }
        impl Xof for $name {
            fn squeeze(&mut self, output: &mut [u8]) {
                let id = oracle($kind + self.bits, 0, &[], &[], &self.buf);
                stream(id, self.pos, output);
                self.pos += output.len();
            }
        }
    };
}
plain!(Sha3, 0x10, [v224 = 0, v256 = 1, v384 = 2, v512 = 3]);
plain!(Keccak, 0x20, [v224 = 0, v256 = 1, v384 = 2, v512 = 3]);
plain!(Shake, 0x30, [v128 = 0, v256 = 1]);

macro_rules! keyed {
    ($name:ident, $xof:ident, $kind:expr) => {
        #[derive(Clone)]
        pub struct $name { bits: u8, key: Vec<u8>, custom: Vec<u8>, buf: Vec<u8> }
        #[derive(Clone)]
        pub struct $xof { inner: $name, pos: usize }
        impl Hasher for $name {
            fn update(&mut self, input: &[u8]) { self.buf.extend_from_slice(input); }
            fn finalize(self, output: &mut [u8]) {
                let id = oracle($kind + self.bits, output.len() as u64 + 1, &self.key, &self.custom, &self.buf);
                stream(id, 0, output);
            }
        }
        impl IntoXof for $name {
            type Xof = $xof;
            fn into_xof(self) -> $xof { $xof { inner: self, pos: 0 } }
        }
        impl Xof for $xof {
            fn squeeze(&mut self, output: &mut [u8]) {
                let h = &self.inner;
                let id = oracle($kind + h.bits, 0, &h.key, &h.custom, &h.buf);
                stream(id, self.pos, output);
                self.pos += output.len();
            }
        }
    };
}
keyed!(Kmac, KmacXof, 0x40);
keyed!(CShake, CShakeXof, 0x50);
impl Kmac {
    pub fn v128(key: &[u8], custom: &[u8]) -> Self {
        Self { bits: 0, key: key.to_vec(), custom: custom.to_vec(), buf: Vec::new() }
    }
    pub fn v256(key: &[u8], custom: &[u8]) -> Self {
        Self { bits: 1, key: key.to_vec(), custom: custom.to_vec(), buf: Vec::new() }
    }
}
impl CShake {
    pub fn v128(name: &[u8], custom: &[u8]) -> Self {
        Self { bits: 0, key: name.to_vec(), custom: custom.to_vec(), buf: Vec::new() }
    }
    pub fn v256(name: &[u8], custom: &[u8]) -> Self {
        Self { bits: 1, key: name.to_vec(), custom: custom.to_vec(), buf: Vec::new() }
    }
}
