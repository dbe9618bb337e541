//! Bulk operations, fresh secrets, data filters, saved and restored tables.
use crate::api::*;
use crate::db::*;
use crate::world::*;
use cosmian_crypto_core::bytes_ser_de::{Deserializer, Serializable, Serializer};
use cosmian_crypto_core::reexport::rand_core::{CryptoRng, Error as RngError, RngCore, SeedableRng};
use cosmian_crypto_core::{CsRng, FixedSizeCBytes, RandomFixedSizeCBytes};
use cosmian_findex::*;
use std::cell::RefCell;
use std::collections::{HashMap, HashSet};
const FILE: u64 = 7;

fn tk(i: u64) -> Token {
    let mut t = [9; 32];
    t[30..].copy_from_slice(&id(i));
    Token::from(t)
}
fn ev(b: u64) -> EncryptedValue<2> {
    let c = id(b);
    EncryptedValue { ciphertext: [c[0], c[1]], tag: [c[1]; 16], nonce: cosmian_crypto_core::Nonce([c[0]; 12]) }
}

/// C13: calls on `n` lines; one of them, anywhere, is not as the others.
pub fn memdb_many(n: u64, order: u64, _: u64, _: u64) {
    order_mode(order);
    let mut db = InMemoryDb::<2>::default();
    let all = |lo: u64, hi: u64, v: u64| -> TokenToEncryptedValueMap<2> { (lo..hi).map(|i| (tk(i), ev(v + i))).collect() };
    let is = |db: &InMemoryDb<2>, exp: &dyn Fn(u64) -> Option<u64>, n: u64| {
        let mut cnt = 0;
        for i in 0..n {
            let e = exp(i);
            cnt += e.is_some() as usize;
            chk!(db.lock().unwrap().get(&tk(i)).cloned() == e.map(ev));
        }
        chk!(db.len() == cnt && db.is_empty() == (cnt == 0));
        chk!(db.size() == cnt * (32 + 2 + 28));
    };
    chk!(block_on(db.insert(all(0, n, 0))).is_ok());
    is(&db, &|i| Some(i), n);
    let s = some_index(n);
    match pick(6) {
        0 => {
            // an insertion of new lines, but for one
            let mut m = all(n, 2 * n, 0);
            m.remove(&tk(n + s));
            m.insert(tk(s), ev(7));
            chk!(block_on(db.insert(m)).is_err());
            is(&db, &|i| Some(i).filter(|i| *i < n), 2 * n);
        }
        1 => {
            // an update, with one wrong expected value
            let mut old = all(0, n, 0);
            let wrong = if flip() { Some(ev(s + 1)) } else { None };
            match &wrong { Some(v) => { old.insert(tk(s), v.clone()); }, None => { old.remove(&tk(s)); } }
            let r = block_on(db.upsert(old, all(0, n, 1000)));
            chk!(r.is_ok());
            let r = r.unwrap();
            chk!(r.len() == 1 && r.get(&tk(s)) == Some(&ev(s)));
            is(&db, &|i| Some(if i == s { i } else { 1000 + i }), n);
        }
        2 => {
            // an update of all the lines but one, and of a new one
            let mut old = all(0, n, 0);
            let mut new = all(0, n, 1000);
            old.remove(&tk(s));
            new.remove(&tk(s));
            new.insert(tk(n), ev(1000 + n));
            let r = block_on(db.upsert(old, new));
            chk!(r.is_ok() && r.unwrap().is_empty());
            is(&db, &|i| Some(if i == s { i } else { 1000 + i }), n + 1);
        }
        3 => {
            // an update which expects a missing line
            let mut old = all(0, n, 0);
            old.insert(tk(n + s), ev(0));
            chk!(block_on(db.upsert(old, all(0, n, 1000))).is_err());
            is(&db, &|i| Some(i).filter(|i| *i < n), n + 1);
        }
        4 => {
            // all the lines but one are read, then deleted
            let t: Vec<Token> = (0..n).filter(|i| *i != s).map(tk).chain([tk(n + 5)]).collect();
            let r = block_on(db.fetch(Tokens::from_iter(t.clone())));
            chk!(r.is_ok());
            let r: HashMap<_, _> = { let v: Vec<_> = r.unwrap().into(); chk!(v.len() as u64 == n - 1); v.into_iter().collect() };
            for i in 0..n { chk!(r.get(&tk(i)).cloned() == Some(ev(i)).filter(|_| i != s)); }
            let d = block_on(db.dump_tokens());
            chk!(d.is_ok());
            let d = d.unwrap();
            chk!(d.len() as u64 == n);
            for i in 0..n { chk!(d.contains(&tk(i))); }
            chk!(block_on(db.delete(Tokens::from_iter(t))).is_ok());
            is(&db, &|i| Some(i).filter(|i| *i == s), n);
        }
        _ => {
            db.load(all(s, n, 500));
            is(&db, &|i| Some(500 + i).filter(|_| i >= s), n);
            db.flush();
            is(&db, &|_| None, n);
        }
    }
    mark(0);
    observe(s);
}

/// C04: the dictionaries on `n` lines. table: 0 entry, 1 chain.
pub fn edx_many(n: u64, table: u64, order: u64, _: u64) {
    order_mode(order);
    let ctl = new_ctl();
    fn go<E: DxEnc<2, EncryptedValue = EncryptedValue<2>>>(e: &E, n: u64, upserts: bool) {
        let mut rng = CsRng::from_seed([5; 32]);
        let k = e.derive_keys(&e.gen_seed(&mut rng));
        let t: Vec<Token> = (0..2 * n).map(|i| e.tokenize(&k, &id(i), None)).collect();
        let val = |i: u64| -> [u8; 2] { id(i).try_into().unwrap() };
        let make = |rng: &mut CsRng, lo: u64, hi: u64, v: u64| -> HashMap<Token, EncryptedValue<2>> {
            (lo..hi).map(|i| (t[i as usize], e.prepare(rng, &k, val(v + i)).ok().unwrap())).collect()
        };
        let is = |n: u64, exp: &dyn Fn(u64) -> Option<u64>| {
            let r = block_on(e.get((0..n).map(|i| t[i as usize]).collect()));
            chk!(r.is_ok());
            let r = r.ok().unwrap();
            chk!(r.len() == (0..n).filter(|i| exp(*i).is_some()).count());
            let r: HashMap<Token, EncryptedValue<2>> = r.into_iter().collect();
            for i in 0..n {
                match (r.get(&t[i as usize]), exp(i)) {
                    (None, None) => (),
                    (Some(x), Some(y)) => {
                        let d = e.resolve(&k, x);
                        chk!(d.is_ok());
                        chk!(eq(&d.ok().unwrap(), &val(y)));
                    }
                    _ => chk!(false),
                }
            }
        };
        let m = make(&mut rng, 0, n, 0);
        let first = m.clone();
        chk!(block_on(e.insert(m)).is_ok());
        is(n, &|i| Some(i));
        let s = some_index(n);
        match pick(2 + upserts as u64) {
            0 => {
                let mut m = make(&mut rng, n, 2 * n, 0);
                m.insert(t[s as usize], first[&t[s as usize]].clone());
                chk!(block_on(e.insert(m)).is_err());
                is(2 * n, &|i| Some(i).filter(|i| *i < n));
            }
            1 => {
                chk!(block_on(e.delete((0..n).filter(|i| *i != s).map(|i| t[i as usize]).collect())).is_ok());
                is(n, &|i| Some(i).filter(|i| *i == s));
            }
            _ => {
                let mut old = first.clone();
                let wrong = e.prepare(&mut rng, &k, val(s)).ok().unwrap();
                old.insert(t[s as usize], wrong);
                let r = block_on(e.upsert(old, make(&mut rng, 0, n, 1000)));
                chk!(r.is_ok());
                let r = r.ok().unwrap();
                chk!(r.len() == 1 && r.get(&t[s as usize]) == first.get(&t[s as usize]));
                is(n, &|i| Some(if i == s { i } else { 1000 + i }));
            }
        }
        mark(0);
        observe(s);
    }
    if table == 0 { go(&EntryTable::<2, Db<2>>::setup(Db::new(0, &ctl)), n, true) } else { go(&ChainTable::<2, Db<2>>::setup(Db::new(1, &ctl)), n, false) }
}

/// A generator the output of which is arbitrary, and recorded.
struct Any(Vec<u8>);
impl RngCore for Any {
    fn next_u32(&mut self) -> u32 { let mut b = [0; 4]; self.fill_bytes(&mut b); u32::from_le_bytes(b) }
    fn next_u64(&mut self) -> u64 { let mut b = [0; 8]; self.fill_bytes(&mut b); u64::from_le_bytes(b) }
    fn fill_bytes(&mut self, dst: &mut [u8]) { for x in dst { *x = byte(); self.0.push(*x); } }
    fn try_fill_bytes(&mut self, dst: &mut [u8]) -> Result<(), RngError> { self.fill_bytes(dst); Ok(()) }
}
impl CryptoRng for Any {}

/// C29: what is drawn uses the whole output of the generator: two different
/// outputs give two different secrets.
/// which: 0 label, 1 key, 2 and 3 seeds of the tables, 4 and 5 nonces.
pub fn drawn(which: u64, _: u64, _: u64, _: u64) {
    order_mode(0);
    let w = World::new();
    let mm = &w.ix.findex_graph.findex_mm;
    let (et, ct) = (&mm.entry_table, &mm.chain_table);
    let draw = |r: &mut Any| -> Vec<u8> {
        match which {
            0 => Label::random(r).to_vec(),
            1 => UserKey::new(r).to_vec(),
            2 => et.gen_seed(r).as_ref().to_vec(),
            3 => ct.gen_seed(r).as_ref().to_vec(),
            4 => et.prepare(r, &et.derive_keys(&Default::default()), [3; ENTRY_LENGTH]).ok().unwrap().nonce.0.to_vec(),
            _ => ct.prepare(r, &ct.derive_keys(&Default::default()), [3; LINK_LENGTH]).ok().unwrap().nonce.0.to_vec(),
        }
    };
    let (mut a, mut b) = (Any(vec![]), Any(vec![]));
    let (x, y) = (draw(&mut a), draw(&mut b));
    let n = match which { 0 => 32, 1 | 2 | 3 => 16, _ => 12 };
    chk!(x.len() == n && y.len() == n);
    chk!(a.0.len() >= n);
    // several bytes may be drawn for one
    if a.0.len() == n && b.0.len() == n {
        let same = eq(&x, &y);
        chk!(!same || eq(&a.0, &b.0));
        mark(if same { 0 } else { 1 });
    } else {
        // each byte may have any value
        if SYM { for b in &x { let v = peek(*b as u64); assume(*b as u64 != v); } }
        mark(0);
        mark(1);
    }
    observe(n as u64);
}

/// C29: the keys generated by any clients are all different, in all their
/// bytes when many are generated.
pub fn keys(n: u64, _: u64, _: u64, _: u64) {
    order_mode(0);
    let w = World::new();
    let clients = [w.client(), w.client()];
    let mut all: Vec<Vec<u8>> = Vec::new();
    for i in 0..n.max(2) { all.push(clients[(i % 2) as usize].keygen().to_vec()); }
    // different halves: none of them is a constant, or a copy
    let mut parts: Vec<&[u8]> = Vec::new();
    for k in &all {
        chk!(k.len() == 16);
        parts.push(&k[..8]);
        parts.push(&k[8..]);
    }
    for i in 0..parts.len() {
        chk!(!eq(parts[i], &[0; 8]));
        for j in 0..i { chk!(!eq(parts[i], parts[j])); }
    }
    if !SYM { for p in 0..16 { chk!((0..64).any(|_| w.ix.keygen()[p] != all[0][p])); } }
    mark(0);
    observe(n);
}

/// C30: what the data filter sees, and what it decides. `n` operations, one of
/// them on pointers; the filter keeps the data which are not above a threshold
/// of its own, and returns another datum, which it was not given.
/// which: 0 rate 1, 1 rate 0, 2 any draw.
pub fn sifted(n: u64, which: u64, order: u64, _: u64) {
    order_mode(order);
    let w = World::new();
    let mut ops = Vec::new();
    for _ in 0..n {
        let o = sym_op();
        chk!(apply(&w, &o).is_ok());
        ops.push(o);
    }
    let (src, dst) = (byte(), byte());
    chk!(w.add(one(Iv::Pointer(kw(dst)), kw(src))).is_ok());
    let (limit, foreign) = (byte(), byte());
    let given: RefCell<Vec<Vec<u8>>> = Default::default();
    let k2 = w.ix.keygen();
    let rate = match which { 0 => 1.0, 1 => 0.0, _ => 0.3 };
    let r = block_on(w.ix.compact(&w.key, &k2, &w.label, &w.label, rate, &|d: HashSet<Data>| {
        given.borrow_mut().extend(d.iter().map(|x| x.to_vec()));
        let mut out: HashSet<Data> = d.into_iter().filter(|x| x.len() != 1 || x[0] < limit).collect();
        out.insert(dat(foreign));
        async move { Ok(out) }
    }));
    chk!(r.is_ok());
    let given = given.into_inner();
    let lives = |d: u8| { let mut r = false; for o in &ops { r |= live(&ops, o.k, d); } r };
    // only data which are indexed
    for x in &given { chk!(x.len() == 1 && lives(x[0])); }
    // all of them, or none
    for o in &ops {
        if which == 0 { chk!(!lives(o.d) || has(&given, &[o.d])); }
    }
    if which == 1 { chk!(given.is_empty()); }
    let q = byte();
    let f = w.find_as(&k2, &w.label, &kw(q));
    chk!(f.is_some());
    let f = f.unwrap();
    for x in &f {
        // nothing is added
        chk!(x.len() == 1 && (live(&ops, q, x[0]) | ((q == src) & live(&ops, dst, x[0]))));
        // nothing is kept against the filter
        if which == 0 { chk!((x[0] < limit) | (x[0] == foreign)); }
    }
    for o in &ops {
        let was = live(&ops, q, o.d) | ((q == src) & live(&ops, dst, o.d));
        // what was not given, or was returned, is kept
        let keep = !has(&given, &[o.d]) | (o.d < limit) | (o.d == foreign);
        chk!(!(was & keep) || has(&f, &[o.d]));
    }
    observe((which < 2) as u64 * given.len() as u64);
    mark(0);
}

/// C31: the tables are written to bytes, and read back by someone else, at any
/// moment of a history of `n` operations, before `m` others; `compact`: an
/// index compacted once restored.
pub fn restore(n: u64, m: u64, compact: u64, order: u64) {
    order_mode(order);
    let w = World::new();
    let mut ops = Vec::new();
    for _ in 0..n {
        let o = sym_op();
        chk!(apply(&w, &o).is_ok());
        ops.push(o);
    }
    let (k, l) = (UserKey::try_from_bytes(w.key.to_vec().try_into().unwrap()).unwrap(), Label::from(w.label.to_vec()));
    fn copy<const N: usize>(db: &Db<N>) -> Option<Vec<u8>> {
        let mut ser = Serializer::new();
        let n = ser.write(&*db.db).ok()?;
        let out = ser.finalize().to_vec();
        if out.len() == n { Some(out) } else { None }
    }
    fn back<const N: usize>(db: &Db<N>, b: &[u8]) -> bool {
        let mut de = Deserializer::new(b);
        let Ok(t) = de.read::<InMemoryDb<N>>() else { return false };
        for (t, v) in lines(&t) { put_line(&db.db, t, v); }
        de.finalize().is_empty()
    }
    let mut v = World::new();
    // what the clients have found before does not matter
    let q = byte();
    for x in [&w, &v] { chk!(x.find_as(&k, &l, &kw(q)).is_some()); }
    let (e, c) = (copy(&w.et), copy(&w.ct));
    chk!(e.is_some() && c.is_some());
    chk!(back(&v.et, &e.unwrap()) && back(&v.ct, &c.unwrap()));
    chk!(same_rows(&w.snap().0, &v.snap().0) && same_rows(&w.snap().1, &v.snap().1));
    v.key = k;
    v.label = l;
    if compact == 1 {
        let l2 = Label::from("restored");
        chk!(v.compact(&v.key, &l2, if flip() { 1.0 } else { 0.0 }).is_ok());
        v.label = l2;
    }
    for _ in 0..pick(m + 1) {
        let o = sym_op();
        chk!(apply(&v, &o).is_ok());
        // the former index is not concerned
        chk!(w.snap().0.len() <= n as usize);
        ops.push(o);
    }
    let f = v.find(&kw(q));
    chk!(f.is_some());
    let f = f.unwrap();
    chk!(exact(&f, &ops, q));
    let f0 = w.find(&kw(q));
    chk!(f0.is_some() && exact(&f0.unwrap(), &ops[..n as usize], q));
    observe(f.len() as u64);
    mark(0);
}

/// C21: a rate for which nothing is drawn at random, for `n` entries. listed:
/// one of a list, rather than any.
pub fn extreme(n: u64, listed: u64, _: u64, _: u64) {
    // nothing should be drawn
    draws(0, if n > 20 { 0 } else { 8 });
    let w = World::new();
    for _ in 0..2 {
        let all: Vec<(Iv, Keyword)> = (0..n).map(|i| (Iv::Data(dat(1)), Keyword::from(id(i)))).collect();
        chk!(w.add(group(all)).is_ok());
    }
    let c0 = w.snap().1;
    chk!(c0.len() as u64 == 2 * n);
    // any rate of at least 1, or null, negative or undefined
    let list = [1.0, 1.0 + f64::EPSILON, 1.5, 2.0, 1e3, 1e19, f64::MAX, f64::INFINITY, 0.0, -0.0, -1e-300, -0.5, -1.0, -2.0, f64::NEG_INFINITY, f64::NAN];
    let rate = if listed == 1 { list[pick(16) as usize] } else { f64::from_bits(var(64)) };
    let full = conc((rate >= 1.0) as u64) == 1;
    assume(full || !(rate > 0.0));
    let k2 = w.ix.keygen();
    chk!(w.compact(&k2, &w.label, rate).is_ok());
    let c1 = w.snap().1;
    if full {
        chk!(c1.len() as u64 == n);
        for (t, _) in &c1 { chk!(row(&c0, t).is_none()); }
    } else { chk!(same_rows(&c0, &c1)); }
    let k = Keyword::from(id(some_index(n)));
    let f = w.find_as(&k2, &w.label, &k);
    chk!(f.is_some() && f.unwrap().len() == 1);
    mark(full as u64);
    observe(c1.len() as u64);
}
