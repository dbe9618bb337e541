//! MODEL of aes-gcm used for symbolic execution only.
//!
//! Ideal authenticated encryption: the ciphertext and the tag are fresh
//! constants that carry no information about key, nonce or plaintext; decryption
//! succeeds only on a (key, nonce, aad, ciphertext, tag) that an encryption
//! produced, and then returns exactly the plaintext that was encrypted.
//!
//! A key and a nonce used again give the same stream, as in counter mode: the
//! same ciphertext and tag for the same plaintext, and otherwise a ciphertext
//! which reveals the difference of the plaintexts.
#![allow(static_mut_refs)]
pub use aead::{self, AeadCore, AeadInPlace, Error, Key, KeyInit, KeySizeUser};
use aead::{
    consts::{U0, U12, U16, U32},
    generic_array::GenericArray,
};

struct Rec {
    alg: u8,
    key: Vec<u8>,
    nonce: Vec<u8>,
    aad: Vec<u8>,
    plain: Vec<u8>,
    cipher: Vec<u8>,
    tag: [u8; 16],
}
static mut TABLE: Vec<Rec> = Vec::new();
extern "C" {
    /// A hash of constant bytes; zero if one of them is symbolic.
    fn sym_hash(p: *const u8, n: u64, seed: u64) -> u64;
}
const BUCKETS: usize = 1024;
const NONE: Vec<u32> = Vec::new();
/// Records by key and nonce, when they are constants, and the other ones.
static mut INDEX: [Vec<u32>; BUCKETS] = [NONE; BUCKETS];
static mut OTHERS: Vec<u32> = Vec::new();

fn hash(alg: u8, key: &[u8], nonce: &[u8]) -> u64 {
    let h = unsafe { sym_hash(key.as_ptr(), key.len() as u64, 1 + alg as u64) };
    if h == 0 { 0 } else { unsafe { sym_hash(nonce.as_ptr(), nonce.len() as u64, h) } }
}

/// The records which may have this key and this nonce.
fn candidates(h: u64) -> Vec<u32> {
    let (t, index, others) = unsafe { (&TABLE, &INDEX, &OTHERS) };
    if h == 0 { return (0..t.len() as u32).collect(); }
    let mut r = index[(h >> 1) as usize % BUCKETS].clone();
    r.extend_from_slice(others);
    r
}

pub type Nonce<N> = GenericArray<u8, N>;
pub type Tag<T = U16> = GenericArray<u8, T>;

macro_rules! alg {
    ($name:ident, $alg:expr, $ks:ty) => {
        #[derive(Clone)]
        pub struct $name { key: Vec<u8> }
        impl KeySizeUser for $name { type KeySize = $ks; }
        impl KeyInit for $name {
            fn new(key: &Key<Self>) -> Self { Self { key: key.as_slice().to_vec() } }
        }
        impl AeadCore for $name {
            type NonceSize = U12;
            type TagSize = U16;
            type CiphertextOverhead = U0;
        }
        impl AeadInPlace for $name {
            fn encrypt_in_place_detached(
                &self,
                nonce: &GenericArray<u8, U12>,
                aad: &[u8],
                buffer: &mut [u8],
            ) -> Result<GenericArray<u8, U16>, Error> {
                Ok(GenericArray::clone_from_slice(&seal($alg, &self.key, nonce, aad, buffer)))
            }
            fn decrypt_in_place_detached(
                &self,
                nonce: &GenericArray<u8, U12>,
                aad: &[u8],
                buffer: &mut [u8],
                tag: &GenericArray<u8, U16>,
            ) -> Result<(), Error> {
                if open($alg, &self.key, nonce, aad, buffer, tag) { Ok(()) } else { Err(Error) }
            }
        }
    };
}
alg!(Aes128Gcm, 1, U16);
alg!(Aes256Gcm, 2, U32);

fn seal(alg: u8, key: &[u8], nonce: &[u8], aad: &[u8], buffer: &mut [u8]) -> [u8; 16] {
    let t = unsafe { &mut TABLE };
    let id = t.len() as u32 + 1;
    let plain = buffer.to_vec();
    let h = hash(alg, key, nonce);
    let mut same = candidates(h);
    same.retain(|i| { let r = &t[*i as usize]; r.alg == alg && r.nonce[..] == *nonce && r.key[..] == *key });
    let old = same.iter().map(|i| &t[*i as usize]).max_by_key(|r| r.plain.len());
    let known = match old { Some(r) => r.plain.len(), None => 0 };
    let mut k = 0;
    while k < buffer.len() {
        buffer[k] = if k < known {
            let r = old.unwrap();
            buffer[k] ^ r.plain[k] ^ r.cipher[k]
        } else {
            match k % 8 {
                0 => 0xC7,
                1 => id as u8,
                2 => (id >> 8) as u8,
                3 => (id >> 16) as u8,
                4 => k as u8,
                5 => 0x96,
                6 => 0x5D,
                _ => 0x71,
            }
        };
        k += 1;
    }
    for i in &same {
        let r = &t[*i as usize];
        if r.aad[..] == *aad && r.cipher[..] == *buffer { return r.tag; }
    }
    let mut tag = [0x9E; 16];
    tag[1] = id as u8;
    tag[2] = (id >> 8) as u8;
    tag[3] = (id >> 16) as u8;
    let (index, others) = unsafe { (&mut INDEX, &mut OTHERS) };
    if h == 0 { others.push(t.len() as u32); } else { index[(h >> 1) as usize % BUCKETS].push(t.len() as u32); }
    t.push(Rec {
        alg,
        key: key.to_vec(),
        nonce: nonce.to_vec(),
        aad: aad.to_vec(),
        plain,
        cipher: buffer.to_vec(),
        tag,
    });
    tag
}

fn open(alg: u8, key: &[u8], nonce: &[u8], aad: &[u8], buffer: &mut [u8], tag: &[u8]) -> bool {
    let t = unsafe { &TABLE };
    for i in candidates(hash(alg, key, nonce)) {
        let r = &t[i as usize];
        if r.alg == alg
            && r.cipher.len() == buffer.len()
            && r.aad.len() == aad.len()
            && r.tag[..] == *tag
            && r.nonce[..] == *nonce
            && r.cipher[..] == *buffer
            && r.key[..] == *key
            && r.aad[..] == *aad
        {
            buffer.copy_from_slice(&r.plain);
            return true;
        }
    }
    false
}
