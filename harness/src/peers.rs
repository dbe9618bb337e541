//! What a client keeps in memory is not a state of the index: several clients,
//! several contexts, and long lives of one client.
use crate::api::*;
use crate::db::*;
use crate::world::*;
use cosmian_crypto_core::FixedSizeCBytes;
use cosmian_findex::*;
use std::collections::{HashMap, HashSet};
const FILE: u64 = 9;

fn find(c: &Ix, k: &UserKey, l: &Label, q: &Keyword) -> Vec<Vec<u8>> {
    let r = block_on(c.search(k, l, Keywords::from_iter([q.clone()]), &|_| async { Ok(false) }));
    chk!(r.is_ok());
    let r = r.unwrap();
    chk!(r.len() == 1 && r.contains_key(q));
    list(&r[q])
}
fn modify(c: &Ix, k: &UserKey, l: &Label, add: bool, m: IndexedValueToKeywordsMap) -> Keywords {
    let r = block_on(async { if add { c.add(k, l, m).await } else { c.delete(k, l, m).await } });
    chk!(r.is_ok());
    r.unwrap()
}

/// C01, C05, C06: two clients take turns: `n` operations, a compaction, `m`
/// operations. After each of them, both search the same keyword.
/// how: 0 new key, 1 new label, 2 both; from 10 on: rate 0, rather than 1; from
/// 20 on: no compaction.
pub fn peers(n: u64, m: u64, how: u64, order: u64) {
    order_mode(order);
    let (kind, how) = (how / 10, how % 10);
    let w = World::new();
    let clients = [w.client(), w.client()];
    let (mut key, mut label) = (w.key.clone(), w.label.clone());
    let mut ops: Vec<Op> = Vec::new();
    // keywords which have an entry
    let mut entries: Vec<u8> = Vec::new();
    let q = byte();
    let look = |key: &UserKey, label: &Label, ops: &[Op]| {
        for c in &clients { chk!(exact(&find(c, key, label, &kw(q)), ops, q)); }
    };
    look(&key, &label, &ops);
    let step = |key: &UserKey, label: &Label, ops: &mut Vec<Op>, entries: &mut Vec<u8>| {
        let c = &clients[pick(2) as usize];
        let o = sym_op();
        let new = modify(c, key, label, o.add, d1(o.d, o.k));
        chk!(new.contains(&kw(o.k)) != entries.contains(&o.k));
        chk!(new.len() <= 1);
        ops.push(o);
        if !entries.contains(&o.k) { entries.push(o.k); }
        look(key, label, ops);
    };
    for _ in 0..n { step(&key, &label, &mut ops, &mut entries); }
    if kind < 2 {
        let k2 = if how == 1 { key.clone() } else { clients[0].keygen() };
        let l2 = if how == 0 { label.clone() } else { Label::from("new label") };
        let r = block_on(clients[pick(2) as usize].compact(&key, &k2, &label, &l2, if kind == 0 { 1.0 } else { 0.0 }, &|d| async { Ok(d) }));
        chk!(r.is_ok());
        // an entry is left for the keywords which hold a value
        if kind == 0 { entries.retain(|k| { let mut r = false; for o in &ops { r |= live(&ops, *k, o.d); } r }); }
        // the former index is empty
        for c in &clients { chk!(find(c, &key, &label, &kw(q)).is_empty()); }
        let (k1, l1) = (key, label);
        (key, label) = (k2, l2);
        look(&key, &label, &ops);
        for _ in 0..m { step(&key, &label, &mut ops, &mut entries); }
        // and can be used again
        let new = modify(&clients[pick(2) as usize], &k1, &l1, true, d1(7, q));
        chk!(new.contains(&kw(q)));
        for c in &clients { chk!(exact(&find(c, &k1, &l1, &kw(q)), &[Op { add: true, k: q, d: 7 }], q)); }
        look(&key, &label, &ops);
    }
    mark(0);
    observe(w.snap().0.len() as u64);
}

/// C14: one client under several keys and labels in turn: `n` additions,
/// deletions or searches, each of them under either of two keys, which differ
/// by any change, and either of two labels of up to `len` bytes.
pub fn contexts(n: u64, len: u64, order: u64, _: u64) {
    order_mode(order);
    let w = World::new();
    let raw = w.key.to_vec();
    let mask = bytes(16);
    assume(!eq(&mask, &[0; 16]));
    let k2: Vec<u8> = raw.iter().zip(&mask).map(|(x, y)| x ^ y).collect();
    let keys = [w.key.clone(), UserKey::try_from_bytes(k2.try_into().unwrap()).unwrap()];
    let labels: Vec<Vec<u8>> = (0..2).map(|_| bytes(some_len(len))).collect();
    let k = byte();
    let mut ops: Vec<(usize, Vec<u8>, Op)> = Vec::new();
    for i in 0..n {
        let (a, b) = (pick(2) as usize, pick(2) as usize);
        let l = Label::from(labels[b].clone());
        let mine: Vec<Op> = ops.iter().filter(|x| x.0 == a && eq(&x.1, &labels[b])).map(|x| x.2).collect();
        let what = if i + 1 == n { 2 } else { pick(3) };
        if what == 2 {
            let f = find(&w.ix, &keys[a], &l, &kw(k));
            chk!(exact(&f, &mine, k));
            observe(f.len() as u64);
        } else {
            let o = Op { add: what == 0, k, d: pick(2) as u8 };
            let new = modify(&w.ix, &keys[a], &l, o.add, d1(o.d, o.k));
            chk!((new.len() == 1) == mine.is_empty());
            ops.push((a, labels[b].clone(), o));
        }
    }
    mark(0);
}

/// C29: each chain has a seed of its own, drawn when it is created and when it
/// is compacted. `n` keywords, in one call or several, and twice as many later.
pub fn seeds(n: u64, rate: u64, order: u64, _: u64) {
    order_mode(order);
    let w = World::new();
    let name = |i: u64| Keyword::from(id(i));
    let layer = |lo: u64, hi: u64, d: u64| group((lo..hi).map(|i| (Iv::Data(Data::from(id(d))), name(i))).collect());
    let mut seen: Vec<Vec<u8>> = Vec::new();
    // the seeds of the chains, of which `fresh` were never seen
    let mut look = |key: &UserKey, entries: u64, fresh: u64| {
        let mut s = <Et as DxEnc<ENTRY_LENGTH>>::Seed::default();
        s.as_mut().copy_from_slice(key);
        let et = &w.ix.findex_graph.findex_mm.entry_table;
        let k = et.derive_keys(&s);
        let e = w.snap().0;
        chk!(e.len() as u64 == entries);
        let mut now: Vec<Vec<u8>> = Vec::new();
        for (_, v) in &e {
            let x = et.resolve(&k, v);
            chk!(x.is_ok());
            let x = x.ok().unwrap()[32..48].to_vec();
            chk!(!now.contains(&x));
            now.push(x);
        }
        let new: Vec<Vec<u8>> = now.into_iter().filter(|x| !seen.contains(x)).collect();
        chk!(new.len() as u64 == fresh);
        // nor do they share a half, nor are they those of another use
        for x in &new {
            for y in seen.iter().chain(&new) { if x != y { chk!(!eq(&x[..8], &y[..8]) && !eq(&x[8..], &y[8..])); } }
            chk!(!eq(x, key));
        }
        seen.extend(new);
    };
    chk!(w.add(layer(0, n, 0)).is_ok());
    look(&w.key, n, n);
    // others, with known ones
    let c = if flip() { w.client() } else { w.client() };
    modify(&c, &w.key, &w.label, true, layer(n / 2, 2 * n, 1));
    look(&w.key, 2 * n, n);
    modify(&w.ix, &w.key, &w.label, flip(), layer(0, 2 * n, 1));
    look(&w.key, 2 * n, 0);
    let k2 = w.ix.keygen();
    chk!(block_on((if flip() { &c } else { &w.ix }).compact(&w.key, &k2, &w.label, &w.label, [1.0, 0.0][rate as usize], &|d| async { Ok(d) })).is_ok());
    let left = w.snap().0.len() as u64;
    chk!(left <= 2 * n && left >= n);
    look(&k2, left, if rate == 0 { left } else { 0 });
    mark(0);
    observe(left);
}

/// C02: two keywords of a great length, which differ anywhere, or are one the
/// beginning of the other.
pub fn alike(len: u64, extra: u64, order: u64, _: u64) {
    order_mode(order);
    let w = World::new();
    let a: Vec<u8> = (0..len).map(|i| (i % 251) as u8).collect();
    let mut b = a.clone();
    for i in 0..extra { b.push(i as u8); }
    let at = [0, 1, 63, 64, 127, 128, len / 4, len / 2, len * 3 / 4, len.saturating_sub(137), len.saturating_sub(2), len - 1][pick(12) as usize].min(len - 1);
    let x = byte();
    b[at as usize] ^= x;
    let same = eq(&a, &b);
    let (a, b) = (Keyword::from(a), Keyword::from(b));
    chk!((a == b) == same);
    chk!(w.add(one(Iv::Data(dat(1)), a.clone())).is_ok());
    let before = w.find(&b);
    chk!(before.is_some() && before.unwrap().len() == same as usize);
    let r = w.add(one(Iv::Data(dat(2)), b.clone()));
    chk!(r.is_ok() && r.unwrap().len() == !same as usize);
    let (f, g) = (w.find(&a), w.find(&b));
    chk!(f.is_some() && g.is_some());
    let (f, g) = (f.unwrap(), g.unwrap());
    chk!(has(&f, &[1]) && has(&g, &[2]));
    chk!(f.len() == 1 + same as usize && g.len() == f.len());
    // as targets
    chk!(w.add(group(vec![(Iv::Pointer(a.clone()), kw(1)), (Iv::Pointer(b.clone()), kw(2))])).is_ok());
    let (f, g) = (w.find(&kw(1)), w.find(&kw(2)));
    chk!(f.is_some() && g.is_some());
    let (f, g) = (f.unwrap(), g.unwrap());
    chk!(has(&f, &[1]) && has(&g, &[2]));
    chk!(f.len() == 1 + same as usize && g.len() == f.len());
    // after a compaction
    let k2 = w.ix.keygen();
    chk!(w.compact(&k2, &w.label, 1.0).is_ok());
    let (f, g) = (w.find_as(&k2, &w.label, &a), w.find_as(&k2, &w.label, &b));
    chk!(f.is_some() && g.is_some());
    let (f, g) = (f.unwrap(), g.unwrap());
    chk!(has(&f, &[1]) && has(&g, &[2]) && f.len() == 1 + same as usize && g.len() == f.len());
    mark(same as u64);
    observe(f.len() as u64);
}
