//! Encodings, stored format, and the in-memory database.
use crate::api::*;
use crate::db::block_on;
use crate::world::*;
use cosmian_crypto_core::bytes_ser_de::{Deserializer, Serializable, Serializer};
use cosmian_crypto_core::reexport::rand_core::SeedableRng;
use cosmian_crypto_core::reexport::tiny_keccak::{Hasher, IntoXof, Kmac, Sha3, Shake, Xof};
use cosmian_crypto_core::{Aes256Gcm, CsRng, DemInPlace, FixedSizeCBytes, Instantiable, Nonce, RandomFixedSizeCBytes, SymmetricKey};
use cosmian_findex::*;
use std::collections::{HashMap, HashSet};
const FILE: u64 = 4;

/// Arbitrary bytes; beyond 1000, only the first and last ones are arbitrary.
fn sparse(n: usize) -> Vec<u8> {
    if n < 1000 { return bytes(n); }
    let mut b = vec![0x5a; n];
    for i in (0..64).chain(n - 64..n) { b[i] = byte(); }
    b
}

/// C17: tokens are made from 32 bytes, and nothing else.
pub fn token(lo: u64, hi: u64, _: u64, _: u64) {
    let n = (lo + pick(hi - lo + 1)) as usize;
    let b = sparse(n);
    let r = Token::try_from(&b[..]);
    chk!(r.is_ok() == (n == 32));
    if let Ok(t) = r {
        chk!(eq(&t, &b));
        let a: [u8; 32] = t.into();
        chk!(eq(&a, &b));
        let mut c = [0u8; 32];
        c.copy_from_slice(&b);
        let (i, m) = (pick(32) as usize, byte());
        c[i] ^= m;
        chk!((Token::from(c) == t) == (m == 0));
        mark(0);
    } else { mark(1); }
    observe(n as u64);
}

fn evalue_n<const N: usize>(lo: u64, hi: u64) {
    let n = (lo + pick(hi - lo + 1)) as usize;
    let b = sparse(n);
    let r = EncryptedValue::<N>::try_from(&b[..]);
    chk!(r.is_ok() == (n == N + 28));
    if let Ok(v) = r {
        // nonce || ciphertext || mac
        chk!(eq(&v.nonce.0, &b[..12]));
        chk!(eq(&v.ciphertext, &b[12..12 + N]));
        chk!(eq(&v.tag, &b[12 + N..]));
        let back: Vec<u8> = (&v).into();
        chk!(eq(&back, &b));
        let mut c = b.clone();
        let (i, m) = (pick(n as u64) as usize, byte());
        c[i] ^= m;
        let w = EncryptedValue::<N>::try_from(&c[..]).unwrap();
        chk!((v == w) == (m == 0));
        mark(0);
    } else { mark(1); }
    observe(n as u64);
}
/// C17: encrypted values. which: plaintexts of 0, 1, 80 or 86 bytes.
pub fn evalue(lo: u64, hi: u64, which: u64, _: u64) {
    match which { 0 => evalue_n::<0>(lo, hi), 1 => evalue_n::<1>(lo, hi), 2 => evalue_n::<ENTRY_LENGTH>(lo, hi), _ => evalue_n::<LINK_LENGTH>(lo, hi) }
}

fn cipher_n<const N: usize>(whole: bool) {
    let mut rng = CsRng::from_seed([7; 32]);
    let (k1, k2) = (SymmetricKey::<32>::new(&mut rng), SymmetricKey::<32>::new(&mut rng));
    let mut plain = [0u8; N];
    for b in plain.iter_mut() { *b = byte(); }
    let a = EncryptedValue::<N>::encrypt(&mut rng, &k1, plain);
    let b = EncryptedValue::<N>::encrypt(&mut rng, &k1, plain);
    chk!(a.is_ok() && b.is_ok());
    let (a, b) = (a.unwrap(), b.unwrap());
    // encryption is not deterministic
    chk!(!eq(&a.nonce.0, &b.nonce.0));
    for v in [&a, &b] {
        let d = v.decrypt(&k1);
        chk!(d.is_ok());
        chk!(eq(&d.unwrap(), &plain));
        chk!(v.decrypt(&k2).is_err());
    }
    // any alteration is detected
    let mut raw: Vec<u8> = (&a).into();
    let (mut changed, mut masked) = (false, true);
    if whole {
        (changed, masked) = change(&mut raw, 0, 28 + N, &[12, 12 + N, 28 + N]);
        // but for the other genuine line
        let other: Vec<u8> = (&b).into();
        assume(!eq(&raw, &other));
    } else {
        let (i, m) = (pick(raw.len() as u64) as usize, byte());
        raw[i] ^= m;
        changed = m != 0;
    }
    let c = EncryptedValue::<N>::try_from(&raw[..]).unwrap();
    let d = c.decrypt(&k1);
    chk!(d.is_ok() != changed);
    chk!(c.decrypt(&k2).is_err());
    mark(changed as u64);
    observe(if masked { d.is_ok() as u64 } else { 9 });
}
/// C16: encryption of one value. whole: an arbitrary change of all the bytes,
/// instead of one of them
pub fn cipher(which: u64, whole: u64, _: u64, _: u64) {
    let w = whole == 1;
    match which { 0 => cipher_n::<1>(w), 1 => cipher_n::<ENTRY_LENGTH>(w), _ => cipher_n::<LINK_LENGTH>(w) }
}

/// C17: serialization of indexed values: exact, and injective.
pub fn ivalue(n: u64, raw: u64, _: u64, _: u64) {
    if raw == 1 {
        let b = bytes(pick(n + 1) as usize);
        let r = Iv::try_from(&b[..]);
        if let Ok(v) = r {
            let back: Vec<u8> = (&v).into();
            chk!(eq(&back, &b));
            mark(0);
        } else { mark(1); }
        observe(b.len() as u64);
        return;
    }
    let mk = || {
        let p = flip();
        let b = bytes(pick(n + 1) as usize);
        (p, b.clone(), if p { Iv::Pointer(Keyword::from(b)) } else { Iv::Data(Data::from(b)) })
    };
    let (p, x, a) = mk();
    let (q, y, b) = mk();
    let (va, vb): (Vec<u8>, Vec<u8>) = ((&a).into(), (&b).into());
    let same = p == q && eq(&x, &y);
    chk!(eq(&va, &vb) == same);
    let r = Iv::try_from(&va[..]);
    chk!(r.is_ok());
    let r = r.unwrap();
    chk!(r.is_pointer() == p);
    match (r.get_pointer(), r.get_data()) {
        (Some(k), None) => chk!(p && eq(k, &x)),
        (None, Some(d)) => chk!(!p && eq(d, &x)),
        _ => chk!(false),
    }
    mark(if same { 0 } else { 1 });
    observe(va.len() as u64);
}

fn ev(b: u8) -> EncryptedValue<1> { EncryptedValue { ciphertext: [b], tag: [3; 16], nonce: Nonce([4; 12]) } }
fn tk(i: u64) -> Token { let mut t = [9; 32]; t[31] = i as u8; Token::from(t) }

/// C13: the in-memory database against the documented contract: `n` symbolic
/// calls on `tokens` tokens, with symbolic values.
pub fn memdb(n: u64, tokens: u64, order: u64, first: u64) {
    order_mode(order);
    let db = InMemoryDb::<1>::default();
    let nt = tokens as usize;
    let mut model: Vec<Option<u8>> = vec![None; nt];
    for step in 0..n {
        let kind = if step == 0 && first > 0 { first } else { 1 + pick(3) };
        match kind {
            1 => {
                // insert
                let mut new: Vec<Option<u8>> = vec![None; nt];
                for x in new.iter_mut() { if flip() { *x = Some(byte()); } }
                let m: TokenToEncryptedValueMap<1> = new.iter().enumerate().filter_map(|(i, x)| x.map(|v| (tk(i as u64), ev(v)))).collect();
                let r = block_on(db.insert(m));
                let clash = (0..nt).any(|i| new[i].is_some() && model[i].is_some());
                chk!(r.is_err() == clash);
                if !clash { for i in 0..nt { if new[i].is_some() { model[i] = new[i]; } } } else { mark(1); }
            }
            2 => {
                // upsert
                let mut old: Vec<Option<u8>> = vec![None; nt];
                let mut new: Vec<Option<u8>> = vec![None; nt];
                for i in 0..nt {
                    if flip() { old[i] = Some(byte()); }
                    if flip() { new[i] = Some(byte()); }
                }
                let m = |x: &Vec<Option<u8>>| -> TokenToEncryptedValueMap<1> { x.iter().enumerate().filter_map(|(i, x)| x.map(|v| (tk(i as u64), ev(v)))).collect() };
                let r = block_on(db.upsert(m(&old), m(&new)));
                let missing = (0..nt).any(|i| old[i].is_some() && model[i].is_none());
                chk!(r.is_err() == missing);
                if missing { mark(2); } else {
                    let rej = r.unwrap();
                    let mut cnt = 0;
                    for i in 0..nt {
                        let got = rej.get(&tk(i as u64)).cloned();
                        let Some(v) = new[i] else { chk!(got.is_none()); continue };
                        if old[i] == model[i] {
                            chk!(got.is_none());
                            model[i] = Some(v);
                            mark(3);
                        } else {
                            chk!(got == Some(ev(model[i].unwrap())));
                            cnt += 1;
                            mark(4);
                        }
                    }
                    chk!(rej.len() == cnt);
                }
            }
            _ => {
                let mut t = Vec::new();
                for i in 0..nt { if flip() { t.push(tk(i as u64)); model[i] = None; } }
                chk!(block_on(db.delete(Tokens::from_iter(t))).is_ok());
            }
        }
    }
    // what is stored
    let cnt = model.iter().filter(|x| x.is_some()).count();
    chk!(db.len() == cnt);
    chk!(db.is_empty() == (cnt == 0));
    let d = block_on(db.dump_tokens());
    chk!(d.is_ok());
    let d = d.unwrap();
    chk!(d.len() == cnt);
    for i in 0..nt { chk!(d.contains(&tk(i as u64)) == model[i].is_some()); }
    let ask: Vec<bool> = (0..nt).map(|_| flip()).collect();
    let mut req: Vec<Token> = (0..nt).filter(|i| ask[*i]).map(|i| tk(i as u64)).collect();
    req.push(tk(77));
    let f = block_on(db.fetch(Tokens::from_iter(req)));
    chk!(f.is_ok());
    let f: Vec<(Token, EncryptedValue<1>)> = f.unwrap().into();
    chk!(f.len() == (0..nt).filter(|i| ask[*i] && model[*i].is_some()).count());
    for i in 0..nt {
        if !ask[i] { continue; }
        let got: Vec<_> = f.iter().filter(|x| x.0 == tk(i as u64)).collect();
        match model[i] {
            None => chk!(got.is_empty()),
            Some(v) => chk!(got.len() == 1 && got[0].1 == ev(v)),
        }
    }
    mark(0);
    observe(cnt as u64);
}

/// C18: a table with `n` lines, serialized and read back; two tables in a row.
/// `size`: sizes of the lines.
pub fn ser(n: u64, m: u64, size: u64, _: u64) {
    order_mode(2);
    match size { 0 => ser_n::<2, 3>(n, m), 1 => ser_n::<99, 100>(n, m), 2 => ser_n::<130, 0>(n, m), _ => ser_n::<16356, 1>(n, m) }
}
fn ser_n<const A: usize, const B: usize>(n: u64, m: u64) {
    fn fill<const N: usize>(db: &InMemoryDb<N>, n: u64) {
        for i in 0..n {
            let mut c = [0; N];
            for (i, x) in c.iter_mut().enumerate() { *x = if i < 4 || i + 2 > N { byte() } else { i as u8 }; }
            let mut v = EncryptedValue { ciphertext: c, tag: [byte(); 16], nonce: Nonce([byte(); 12]) };
            v.nonce.0[3] = byte();
            v.tag[5] = byte();
            let mut t = [byte(); 32];
            t[0] = i as u8;
            t[1] = (i >> 8) as u8;
            chk!(block_on(db.insert(TokenToEncryptedValueMap::from_iter([(Token::from(t), v)]))).is_ok());
        }
    }
    let (a, b) = (InMemoryDb::<A>::default(), InMemoryDb::<B>::default());
    fill(&a, n);
    fill(&b, m);
    let sa = a.serialize();
    chk!(sa.is_ok());
    let sa = sa.unwrap();
    chk!(sa.len() == a.length());
    let ra = InMemoryDb::<A>::deserialize(&sa);
    chk!(ra.is_ok());
    chk!(same_rows(&lines(&ra.unwrap()), &lines(&a)));
    // in a row, in the same buffer
    let mut s = Serializer::new();
    let w1 = s.write(&a);
    let w2 = s.write(&b);
    chk!(w1.is_ok() && w2.is_ok());
    let all = s.finalize();
    chk!(all.len() == w1.unwrap() + w2.unwrap());
    chk!(all.len() == a.length() + b.length());
    let mut d = Deserializer::new(&all);
    let (xa, xb) = (d.read::<InMemoryDb<A>>(), d.read::<InMemoryDb<B>>());
    chk!(xa.is_ok() && xb.is_ok());
    chk!(same_rows(&lines(&xa.unwrap()), &lines(&a)));
    chk!(same_rows(&lines(&xb.unwrap()), &lines(&b)));
    chk!(d.finalize().is_empty());
    mark(0);
    observe(all.len() as u64);
}

/// C18: tables of `n` lines written by other versions (a count, then for each
/// line the token, the size of the value, the nonce, the ciphertext and the tag).
pub fn old(n: u64, _: u64, _: u64, _: u64) {
    order_mode(0);
    fn test<const N: usize>(n: u64) {
        let mut b = vec![n as u8];
        let mut lines = Vec::new();
        for i in 0..n {
            let mut t = [byte(); 32];
            t[31] = i as u8;
            let mut v = EncryptedValue { ciphertext: [byte(); N], tag: [byte(); 16], nonce: Nonce([byte(); 12]) };
            v.ciphertext[N - 1] = byte();
            v.tag[0] = byte();
            v.nonce.0[0] = byte();
            b.extend(t);
            let mut l = EncryptedValue::<N>::LENGTH;
            chk!(l == N + 28);
            while l > 127 { b.push(l as u8 | 128); l >>= 7; }
            b.push(l as u8);
            b.extend(v.nonce.0);
            b.extend(v.ciphertext);
            b.extend(v.tag);
            lines.push((Token::from(t), v));
        }
        let r = InMemoryDb::<N>::deserialize(&b);
        chk!(r.is_ok());
        let r = r.unwrap();
        chk!(r.len() == n as usize);
        let rr = crate::world::lines(&r);
        for (t, v) in &lines { chk!(row(&rr, t).as_ref() == Some(v)); }
        // cut anywhere, it is an error
        let cut = if N == 1 { pick(b.len() as u64) as usize } else { b.len() - 1 };
        chk!(InMemoryDb::<N>::deserialize(&b[..cut]).is_err());
        // followed by anything else, as well
        b.push(byte());
        chk!(InMemoryDb::<N>::deserialize(&b).is_err());
    }
    test::<1>(n);
    test::<80>(n);
    test::<100>(n);
    mark(0);
    observe(n);
}

/// C18: reading any bytes gives a table or an error. `n` symbolic bytes, then
/// (kind 1) enough well-formed bytes for some lines.
pub fn garbage(n: u64, tail: u64, _: u64, _: u64) {
    order_mode(0);
    let mut b = bytes(n as usize);
    for _ in 0..tail { b.push(1); }
    let mut d = Deserializer::new(&b);
    let r = d.read::<InMemoryDb<1>>();
    match r {
        Ok(db) => {
            let l = db.len();
            chk!(l * 61 <= b.len());
            mark(0);
            observe(l as u64);
        }
        Err(_) => { mark(1); observe(999); }
    }
}

// ---- C19: an independent implementation of the stored format ----

fn sha3(b: &[u8]) -> [u8; 32] {
    let mut h = Sha3::v256();
    h.update(b);
    let mut r = [0; 32];
    h.finalize(&mut r);
    r
}
fn kdf(seed: &[u8], info: &[u8], name: &[u8]) -> [u8; 32] {
    let mut h = Shake::v256();
    for x in [seed, info, name] { h.update(x); }
    let mut r = [0; 32];
    h.finalize(&mut r);
    r
}
fn kmac256(key: &[u8], parts: &[&[u8]]) -> [u8; 32] {
    let mut h = Kmac::v256(key, b"");
    for p in parts { h.update(p); }
    let mut r = [0; 32];
    h.into_xof().squeeze(&mut r);
    r
}
const ET: &[u8] = b"Entry Table key derivation info.";
const CT: &[u8] = b"Chain Table key derivation info.";
fn open<const N: usize>(key: &[u8; 32], v: &EncryptedValue<N>) -> Option<[u8; N]> {
    let mut r = v.ciphertext;
    let k = SymmetricKey::try_from_bytes(*key).ok()?;
    Aes256Gcm::new(&k).decrypt_in_place_detached(&v.nonce, &mut r, &v.tag, None).ok()?;
    Some(r)
}
fn seal<const N: usize>(key: &[u8; 32], plain: [u8; N], nonce: u8) -> EncryptedValue<N> {
    let mut c = plain;
    let k = SymmetricKey::try_from_bytes(*key).unwrap();
    let n = Nonce([nonce; 12]);
    let t = Aes256Gcm::new(&k).encrypt_in_place_detached(&n, &mut c, None).unwrap();
    let mut tag = [0; 16];
    tag.copy_from_slice(t.as_slice());
    EncryptedValue { ciphertext: c, tag, nonce: n }
}
fn entry_token(key: &[u8], label: &[u8], k: &[u8]) -> Token { kmac256(&kdf(key, ET, b"KMAC key"), &[&sha3(k), label]).into() }
fn next_token(seed: &[u8], prev: &[u8]) -> [u8; 32] { kmac256(&kdf(seed, CT, b"KMAC key"), &[prev, CT]) }

/// Reads the chain of a keyword as the documentation describes it. Returns the
/// operations it holds: (addition, serialized value).
fn reference_read(w: &World, label: &[u8], k: &[u8]) -> Option<Vec<(bool, Vec<u8>)>> {
    let (e, c) = w.snap();
    let key = w.key.as_bytes();
    let Some(v) = row(&e, &entry_token(key, label, k)) else { return Some(vec![]) };
    let p = open(&kdf(key, ET, b"DEM key"), &v)?;
    let (last, seed, hash) = (&p[..32], &p[32..48], &p[48..]);
    if !eq(hash, &sha3(k)) { return None; }
    let ck = kdf(seed, CT, b"DEM key");
    let mut out = Vec::new();
    let mut cur: Vec<u8> = Vec::new();
    let mut prev: [u8; 32] = sha3(k);
    loop {
        let t = next_token(seed, &prev);
        let l = open(&ck, &row(&c, &Token::from(t))?)?;
        for i in 0..5 {
            let add = (l[0] >> i) & 1 == 1;
            let block = &l[1 + 17 * i..1 + 17 * (i + 1)];
            if block[0] == 255 { cur.extend(&block[1..]); continue; }
            if block[0] > 15 { return None; }
            cur.extend(&block[1..1 + block[0] as usize]);
            // padding blocks are empty
            if !cur.is_empty() { out.push((add, std::mem::take(&mut cur))); }
        }
        if eq(&t, last) { break; }
        prev = t;
        if out.len() > 5000 { return None; }
    }
    if !cur.is_empty() { return None; }
    Some(out)
}

/// Keyword and label: of 2 and 3 bytes, or of any length of `LENS`.
fn names(mode: u64) -> (Vec<u8>, Vec<u8>) {
    match mode / 2 { 0 => (bytes(2), bytes(3)), 1 => (bytes(2), bytes(some_len(120))), _ => (bytes(some_len(120)), bytes(3)) }
}

/// C19: what Findex writes is read by the reference implementation. Values of
/// 1 to `max` bytes; `n` calls, of one association each.
pub fn written(n: u64, lo: u64, hi: u64, compacted: u64) {
    order_mode(0);
    let mut w = World::new();
    let (k, lab) = names(compacted);
    let compacted = compacted % 2;
    w.label = Label::from(lab.clone());
    let mut exp: Vec<(bool, Vec<u8>)> = Vec::new();
    for i in 0..n {
        let len = lo + pick(hi - lo + 1);
        let mut v = vec![0x41u8; len as usize];
        if len > 0 { v[0] = i as u8; }
        if len > 1 { v[len as usize - 1] = byte(); }
        let add = flip();
        let p = i == 0 && compacted == 0 && flip();
        let iv = if p { Iv::Pointer(Keyword::from(v.clone())) } else { Iv::Data(Data::from(v.clone())) };
        chk!(w.op(add, one(iv, Keyword::from(k.clone()))).is_ok());
        let mut s = vec![if p { b'w' } else { b'l' }];
        s.extend(&v);
        exp.push((add, s));
    }
    if compacted == 1 {
        let (k2, l2) = (w.ix.keygen(), Label::from(bytes(2)));
        chk!(w.compact(&k2, &l2, 1.0).is_ok());
        w.key = k2;
        w.label = l2.clone();
        let r = reference_read(&w, &l2, &k);
        chk!(r.is_some());
        let r = r.unwrap();
        let mut cnt = 0;
        for (add, v) in &exp {
            chk!(r.iter().any(|x| x.0 && eq(&x.1, v)) == *add);
            cnt += *add as usize;
        }
        chk!(r.len() == cnt);
        mark(0);
        observe(cnt as u64);
        return;
    }
    let r = reference_read(&w, &lab, &k);
    chk!(r.is_some());
    let r = r.unwrap();
    chk!(r.len() == exp.len());
    for (x, y) in r.iter().zip(&exp) {
        chk!(x.0 == y.0);
        chk!(eq(&x.1, &y.1));
    }
    mark(0);
    observe(r.len() as u64);
}

/// C19: what the reference implementation writes is found by Findex. Two links,
/// with `n` symbolic operations on values which span several blocks.
pub fn readback(n: u64, lo: u64, hi: u64, extra: u64) {
    order_mode(0);
    let mut w = World::new();
    let (k, lab) = names(extra);
    let extra = extra % 2;
    w.label = Label::from(lab.clone());
    let seed = [0x5A; 16];
    let mut blocks: Vec<(bool, Vec<u8>, bool)> = Vec::new();
    let mut ops: Vec<(bool, Vec<u8>)> = Vec::new();
    for _ in 0..n {
        let add = flip();
        let len = (lo + pick(hi - lo + 1)) as usize;
        let mut v = vec![0x42u8; len];
        if len > 0 { v[0] = byte(); v[len - 1] = byte(); }
        let mut s = vec![b'l'];
        s.extend(&v);
        let mut rest = &s[..];
        while rest.len() >= 16 { blocks.push((add, rest[..16].to_vec(), false)); rest = &rest[16..]; }
        blocks.push((add, rest.to_vec(), true));
        ops.push((add, v));
    }
    let mut prev = sha3(&k);
    let mut i = 0;
    let ck = kdf(&seed, CT, b"DEM key");
    let mut cnt = 0u8;
    while i < blocks.len() {
        let mut l = [0u8; LINK_LENGTH];
        for j in 0..5 {
            let Some((add, b, end)) = blocks.get(i + j) else { break };
            if *add { l[0] |= 1 << j; }
            l[1 + 17 * j] = if *end { b.len() as u8 } else { 255 };
            l[2 + 17 * j..2 + 17 * j + b.len()].copy_from_slice(b);
        }
        i += 5;
        prev = next_token(&seed, &prev);
        put_line(&w.ct.db, Token::from(prev), seal(&ck, l, cnt));
        cnt += 1;
    }
    let mut e = [0u8; ENTRY_LENGTH];
    e[..32].copy_from_slice(&prev);
    e[32..48].copy_from_slice(&seed);
    e[48..].copy_from_slice(&sha3(&k));
    let key: [u8; 16] = w.key.as_bytes().try_into().unwrap();
    put_line(&w.et.db, entry_token(&key, &lab, &k), seal(&kdf(&key, ET, b"DEM key"), e, 200));
    let kk = Keyword::from(k.clone());
    if extra == 1 {
        // the chain goes on with Findex
        let add = flip();
        let v = ops[0].1.clone();
        let r = w.op(add, one(Iv::Data(Data::from(v.clone())), kk.clone()));
        chk!(r.is_ok());
        chk!(r.unwrap().is_empty());
        ops.push((add, v));
    }
    let f = w.find(&kk);
    chk!(f.is_some());
    let f = f.unwrap();
    let mut total = 0;
    for (i, (_, v)) in ops.iter().enumerate() {
        let mut is = false;
        for o in &ops { if eq(&o.1, v) { is = o.0; } }
        chk!(has(&f, v) == is);
        let mut firsttime = true;
        for o in &ops[..i] { if eq(&o.1, v) { firsttime = false; } }
        if is && firsttime { total += 1; }
    }
    chk!(f.len() == total);
    mark(0);
    observe(total as u64);
}

/// C19: `n` calls of `m` data each on one keyword, read by the reference
/// implementation; one datum, anywhere, is longer, and one call is a deletion.
pub fn written_many(n: u64, m: u64, order: u64, _: u64) {
    order_mode(order);
    let w = World::new();
    let s = some_index(n);
    let del = if flip() { s } else { n - 1 - s };
    let len = 16 * pick(6) as usize;
    let val = |i: u64, j: u64| -> Vec<u8> {
        let mut v = id(i);
        v.extend(id(j));
        if i == s && j == 0 { v.resize(4 + len, 0x66); }
        v
    };
    for i in 0..n {
        let d = group((0..m).map(|j| (Iv::Data(Data::from(val(i, j))), kw(1))).collect());
        chk!(w.op(i != del, d).is_ok());
    }
    let r = reference_read(&w, &w.label, &[1]);
    chk!(r.is_some());
    let r = r.unwrap();
    chk!(r.len() as u64 == n * m);
    for i in 0..n {
        // in the order of the calls
        let call = &r[(i * m) as usize..((i + 1) * m) as usize];
        for j in 0..m {
            let v = [&b"l"[..], &val(i, j)].concat();
            chk!(call.iter().any(|x| x.0 == (i != del) && x.1 == v));
        }
    }
    mark(0);
    observe(r.len() as u64);
}

/// C19: a chain of `n` lines written by the reference implementation, which
/// Findex reads, then goes on with.
pub fn readback_many(n: u64, order: u64, _: u64, _: u64) {
    order_mode(order);
    let w = World::new();
    let seed = [0x5A; 16];
    let ck = kdf(&seed, CT, b"DEM key");
    let mut prev = sha3(&[1]);
    let del = some_index(n);
    for i in 0..n {
        // five one-block values per line; some of the first line are deleted
        let mut l = [0u8; LINK_LENGTH];
        for j in 0..5u64 {
            let d = i == del && j == 2;
            if !d { l[0] |= 1 << j; }
            let v = [&b"l"[..], &id(if d { 0 } else { i }), &id(j)].concat();
            l[1 + 17 * j as usize] = v.len() as u8;
            l[2 + 17 * j as usize..2 + 17 * j as usize + v.len()].copy_from_slice(&v);
        }
        prev = next_token(&seed, &prev);
        let mut line = seal(&ck, l, (i % 200) as u8);
        if i >= 200 { line = seal(&ck, l, 200 + (i % 50) as u8); }
        put_line(&w.ct.db, Token::from(prev), line);
    }
    let mut e = [0u8; ENTRY_LENGTH];
    e[..32].copy_from_slice(&prev);
    e[32..48].copy_from_slice(&seed);
    e[48..].copy_from_slice(&sha3(&[1]));
    let key: [u8; 16] = w.key.as_bytes().try_into().unwrap();
    put_line(&w.et.db, entry_token(&key, &w.label, &[1]), seal(&kdf(&key, ET, b"DEM key"), e, 255));
    let check = |w: &World, more: usize| {
        let f = w.find(&kw(1));
        chk!(f.is_some());
        let f: HashSet<Vec<u8>> = f.unwrap().into_iter().collect();
        for i in 0..n { for j in 0..5 {
            let v = [&id(i)[..], &id(j)].concat();
            chk!(f.contains(&v) != (j == 2 && (i == 0 || i == del)));
        } }
        chk!(f.len() + 1 + (del != 0) as usize == 5 * n as usize + more);
    };
    check(&w, 0);
    chk!(matches!(w.add(d1(9, 1)), Ok(x) if x.is_empty()));
    check(&w, 1);
    chk!(w.snap().1.len() as u64 == n + 1);
    mark(0);
    observe(del);
}
