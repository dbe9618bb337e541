//! Compaction.
use crate::api::*;
use crate::db::*;
use crate::world::*;
use cosmian_crypto_core::{FixedSizeCBytes, RandomFixedSizeCBytes};
use cosmian_findex::*;
use std::collections::HashSet;
const FILE: u64 = 2;

fn renewed(w: &World, how: u64) -> (UserKey, Label) {
    let k = if how == 1 { w.key.clone() } else { w.ix.keygen() };
    let l = if how == 0 { w.label.clone() } else { Label::from("new label") };
    (k, l)
}
const RATES: [f64; 4] = [1.0, 0.0, 0.2, 0.45];

/// C06: the compaction does not change what is found, whatever the entries it
/// picks. `n` symbolic operations, compaction, `m` operations, compaction
/// with rate 1. how: 0 new key, 1 new label, 2 both.
pub fn keep(n: u64, rate: u64, m: u64, how: u64) {
    order_mode(2);
    let mut w = World::new();
    let mut ops = Vec::new();
    for _ in 0..n {
        let o = sym_op();
        chk!(apply(&w, &o).is_ok());
        ops.push(o);
    }
    let (k2, l2) = renewed(&w, how);
    chk!(w.compact(&k2, &l2, RATES[rate as usize]).is_ok());
    w.key = k2;
    w.label = l2;
    let q = byte();
    let f = w.find(&kw(q));
    chk!(f.is_some());
    chk!(exact(&f.unwrap(), &ops, q));
    mark(0);
    if m > 0 {
        for _ in 0..m {
            let o = sym_op();
            chk!(apply(&w, &o).is_ok());
            ops.push(o);
        }
        let f = w.find(&kw(q));
        chk!(f.is_some());
        chk!(exact(&f.unwrap(), &ops, q));
        let (k3, l3) = (w.ix.keygen(), Label::from("third label"));
        chk!(w.compact(&k3, &l3, 1.0).is_ok());
        w.key = k3;
        w.label = l3;
        let f = w.find(&kw(q));
        chk!(f.is_some());
        let f = f.unwrap();
        chk!(exact(&f, &ops, q));
        observe(f.len() as u64);
    }
}

/// C06: partial compaction of three keywords holding several values, with the
/// entries to compact drawn symbolically.
pub fn partial(rate: u64, times: u64, _: u64, _: u64) {
    order_mode(2);
    let mut w = World::new();
    let mut ops = Vec::new();
    for k in 0..3u8 {
        for d in 0..2u8 {
            let o = Op { add: true, k, d: 10 * k + d };
            chk!(apply(&w, &o).is_ok());
            ops.push(o);
        }
    }
    let o = Op { add: false, k: pick(3) as u8, d: 10 };
    chk!(apply(&w, &o).is_ok());
    ops.push(o);
    for i in 0..times {
        let k2 = w.ix.keygen();
        chk!(w.compact(&k2, &w.label, RATES[rate as usize]).is_ok());
        w.key = k2;
        for k in 0..3u8 {
            let f = w.find(&kw(k));
            chk!(f.is_some());
            chk!(exact(&f.unwrap(), &ops, k));
        }
        let o = Op { add: true, k: (i % 3) as u8, d: 50 + i as u8 };
        chk!(apply(&w, &o).is_ok());
        ops.push(o);
    }
    for k in 0..3u8 {
        let f = w.find(&kw(k));
        chk!(f.is_some());
        let f = f.unwrap();
        chk!(exact(&f, &ops, k));
        observe(f.len() as u64);
    }
    mark(0);
}

/// C06: the data filter. Exactly the data it does not return are removed from
/// the compacted keywords; pointers are kept.
pub fn filter(n: u64, err: u64, _: u64, _: u64) {
    order_mode(2);
    let w = World::new();
    let mut ops = Vec::new();
    for _ in 0..n {
        let o = Op { add: true, k: byte(), d: byte() };
        chk!(apply(&w, &o).is_ok());
        ops.push(o);
    }
    // a pointer between any two keywords
    let (src, dst) = (byte(), byte());
    chk!(w.add(one(Iv::Pointer(kw(dst)), kw(src))).is_ok());
    let drop = byte();
    let fail = err == 1 && flip();
    let calls = std::cell::Cell::new(0u64);
    let given: std::cell::RefCell<Vec<Vec<u8>>> = Default::default();
    let k2 = w.ix.keygen();
    let before = w.snap();
    let r = block_on(w.ix.compact(&w.key, &k2, &w.label, &w.label, 1.0, &|d: HashSet<Data>| {
        calls.set(calls.get() + 1);
        given.borrow_mut().extend(d.iter().map(|x| x.to_vec()));
        let out: HashSet<Data> = d.into_iter().filter(|x| !(eq(x, &[drop]))).collect();
        async move { if fail { Err("filter".to_string()) } else { Ok(out) } }
    }));
    chk!(calls.get() >= 1);
    // the filter is given all the indexed data
    for o in &ops { chk!(has(&given.borrow(), &[o.d])); }
    if fail {
        chk!(matches!(r, Err(Error::Filter(_))));
        let after = w.snap();
        chk!(same_rows(&before.0, &after.0));
        chk!(same_rows(&before.1, &after.1));
        mark(1);
        return;
    }
    chk!(r.is_ok());
    let kept: Vec<Op> = ops.iter().map(|o| Op { add: o.d != drop, ..*o }).collect();
    let q = byte();
    let f = w.find_as(&k2, &w.label, &kw(q));
    chk!(f.is_some());
    let f = f.unwrap();
    for o in &ops { chk!(has(&f, &[o.d]) == (live(&kept, q, o.d) | ((q == src) & live(&kept, dst, o.d)))); }
    chk!(!has(&f, &[drop]));
    for x in &f { chk!(has(&given.borrow(), x)); }
    observe(f.len() as u64);
    mark(0);
}

/// C07: size of the tables after a compaction of the whole index.
/// `n` symbolic operations over values of `len` bytes.
pub fn minimal(n: u64, len: u64, multi: u64, _: u64) {
    order_mode(2);
    let w = World::new();
    let val = |d: u8| -> Data {
        let mut v = vec![0x41; len as usize];
        v[0] = d;
        Data::from(v)
    };
    let mut ops = Vec::new();
    if multi > 0 {
        // a chain spanning several links
        for d in 0..multi {
            chk!(w.add(one(Iv::Data(val(d as u8)), kw(3))).is_ok());
            ops.push(Op { add: true, k: 3, d: d as u8 });
        }
    }
    for _ in 0..n {
        let o = if multi > 0 { Op { add: flip(), k: 3, d: pick(multi) as u8 } } else { sym_op() };
        chk!(w.op(o.add, one(Iv::Data(val(o.d)), kw(o.k))).is_ok());
        ops.push(o);
    }
    let k2 = w.ix.keygen();
    chk!(w.compact(&k2, &w.label, 1.0).is_ok());
    // reference: keywords with live data, and blocks needed to store them
    let blocks = (1 + len as usize) / BLOCK_LENGTH + 1;
    let (mut entries, mut links) = (0usize, 0usize);
    for (i, o) in ops.iter().enumerate() {
        if ops[..i].iter().any(|p| p.k == o.k) { continue; }
        let mut cnt = 0usize;
        for (j, p) in ops.iter().enumerate() {
            if ops[..j].iter().any(|r| r.k == o.k && r.d == p.d) { continue; }
            if p.k == o.k && live(&ops, o.k, p.d) { cnt += 1; }
        }
        if cnt > 0 {
            entries += 1;
            links += (cnt * blocks + LINE_WIDTH - 1) / LINE_WIDTH;
        }
    }
    let (e, c) = w.snap();
    chk!(e.len() == entries);
    chk!(c.len() <= links);
    let f = w.find_as(&k2, &w.label, &kw(if multi > 0 { 3 } else { ops[0].k }));
    chk!(f.is_some());
    let f = f.unwrap();
    for o in &ops { if multi > 0 || o.k == ops[0].k { chk!(has(&f, &val(o.d)) == live(&ops, if multi > 0 { 3 } else { ops[0].k }, o.d)); } }
    observe((e.len() * 100 + c.len()) as u64);
    mark(if entries == 0 { 1 } else { 0 });
}

/// C08: what changes in the tables. which: 0 whole compaction, 1 no chain
/// compacted (rate 0), 2 partial.
pub fn renew(n: u64, which: u64, how: u64, _: u64) {
    order_mode(2);
    let w = World::new();
    let mut ops = Vec::new();
    for i in 0..n {
        let o = Op { add: true, k: byte(), d: i as u8 };
        chk!(apply(&w, &o).is_ok());
        ops.push(o);
    }
    let (e0, c0) = w.snap();
    let (k2, l2) = renewed(&w, how);
    chk!(w.compact(&k2, &l2, RATES[which as usize]).is_ok());
    let (e1, c1) = w.snap();
    // the entries are all renewed
    chk!(e1.len() == e0.len());
    for (t, v) in &e1 {
        chk!(row(&e0, t).is_none());
        for (_, u) in &e0 {
            chk!(!eq(&u.ciphertext, &v.ciphertext));
            chk!(!eq(&u.nonce.0, &v.nonce.0));
        }
    }
    // a line of the chain table is either untouched, or renewed
    let mut kept = 0usize;
    for (t, v) in &c1 {
        match row(&c0, t) {
            Some(u) => { kept += 1; chk!(u == *v); }
            None => for (_, u) in &c0 { chk!(!eq(&u.ciphertext, &v.ciphertext)); chk!(!eq(&u.nonce.0, &v.nonce.0)); },
        }
    }
    if which == 0 { chk!(kept == 0); mark(0); }
    if which == 1 { chk!(same_rows(&c0, &c1)); mark(0); }
    if which == 2 { if kept == 0 { mark(1); } else { mark(0); } }
    // the former key and label do not open the index any more
    let q = byte();
    let f = w.find(&kw(q));
    chk!(f.is_some());
    chk!(f.unwrap().is_empty());
    let f = w.find_as(&k2, &l2, &kw(q));
    chk!(f.is_some());
    chk!(exact(&f.unwrap(), &ops, q));
    if how == 2 {
        // both are needed
        let f = w.find_as(&k2, &w.label, &kw(q));
        chk!(f.is_some() && f.unwrap().is_empty());
        let f = w.find_as(&w.key, &l2, &kw(q));
        chk!(f.is_some() && f.unwrap().is_empty());
    }
    observe(e1.len() as u64);
}

/// C09: the database fails, or the client stops, at any call of a compaction.
/// fault: 0 error without effect, 1 error after the effect, 2 crash before the
/// call, 3 crash after the call.
pub fn fail(n: u64, fault: u64, rate: u64, how: u64) {
    order_mode(2);
    let w = World::new();
    let mut ops = Vec::new();
    for i in 0..n {
        let o = Op { add: i < 2 || flip(), k: byte(), d: if i < 2 { i as u8 } else { 0 } };
        chk!(apply(&w, &o).is_ok());
        ops.push(o);
    }
    let before = w.snap();
    let (k2, l2) = renewed(&w, how);
    let at = pick(8);
    w.ctl.arm([Fault::Before, Fault::After, Fault::CrashBefore, Fault::CrashAfter][fault as usize], at);
    let r = run(&w.ctl, w.ix.compact(&w.key, &k2, &w.label, &l2, RATES[rate as usize], &|d| async { Ok(d) }));
    let fired = w.ctl.c().fired;
    let (table, kind) = w.ctl.c().at;
    w.ctl.disarm();
    if !fired {
        chk!(matches!(r, Some(Ok(()))));
        mark(0);
        return;
    }
    mark(1);
    if fault < 2 { chk!(matches!(r, Some(Err(_)))); }
    // Once the new entries are inserted, the index is the new one; before, it
    // is still the former one. Nothing is lost in between.
    let after = w.snap();
    let moved = kind == DELETE || (kind == INSERT && table == 0 && (fault == 3 || fault == 1));
    let q = byte();
    if moved && !(fault == 1 && kind == INSERT) {
        mark(2);
        let f = w.find_as(&k2, &l2, &kw(q));
        chk!(f.is_some());
        chk!(exact(&f.unwrap(), &ops, q));
    } else {
        mark(3);
        let f = w.find(&kw(q));
        chk!(f.is_some());
        chk!(exact(&f.unwrap(), &ops, q));
    }
    if fault == 0 && !moved {
        // everything was reverted
        chk!(same_rows(&before.0, &after.0));
        chk!(same_rows(&before.1, &after.1));
        // and the compaction can be tried again
        chk!(w.compact(&k2, &l2, 1.0).is_ok());
        let f = w.find_as(&k2, &l2, &kw(q));
        chk!(f.is_some());
        chk!(exact(&f.unwrap(), &ops, q));
        mark(4);
    }
    observe(kind as u64 + 10 * table as u64);
}

/// C09: the compaction would overwrite existing entries: it is rejected, and
/// changes nothing. The tables hold two indexes, under two labels.
pub fn collide(n: u64, rate: u64, empty: u64, _: u64) {
    order_mode(2);
    let w = World::new();
    let other = Label::from("other");
    let mut mine = Vec::new();
    for i in 0..n {
        let o = Op { add: true, k: byte(), d: i as u8 };
        chk!(apply(&w, &o).is_ok());
        mine.push(o);
    }
    let b = byte();
    chk!(block_on(w.ix.add(&w.key, &other, d1(200, b))).is_ok());
    if empty == 1 { let o = Op { add: false, ..mine[0] }; chk!(apply(&w, &o).is_ok()); mine.push(o); }
    let before = w.snap();
    // The compaction moves all the entries under the label of some of them.
    let r = w.compact(&w.key, &other, RATES[rate as usize]);
    // an entry under `other` keeps its token: there always is a collision
    chk!(r.is_err());
    let after = w.snap();
    chk!(same_rows(&before.0, &after.0));
    chk!(same_rows(&before.1, &after.1));
    let q = byte();
    let f = w.find(&kw(q));
    chk!(f.is_some());
    chk!(exact(&f.unwrap(), &mine, q));
    let f = w.find_as(&w.key, &other, &kw(q));
    chk!(f.is_some());
    let f = f.unwrap();
    chk!((f.len() == 1) == (q == b));
    mark(0);
    observe(f.len() as u64);
}

/// C09: a compaction with a wrong key fails and changes nothing.
pub fn wrong_key(n: u64, rate: u64, _: u64, _: u64) {
    order_mode(2);
    let w = World::new();
    let mut ops = Vec::new();
    for i in 0..n {
        let o = Op { add: true, k: byte(), d: i as u8 };
        chk!(apply(&w, &o).is_ok());
        ops.push(o);
    }
    let before = w.snap();
    let (bad, k2) = (w.ix.keygen(), w.ix.keygen());
    let r = block_on(w.ix.compact(&bad, &k2, &w.label, &w.label, RATES[rate as usize], &|d| async { Ok(d) }));
    chk!(r.is_err());
    let after = w.snap();
    chk!(same_rows(&before.0, &after.0));
    chk!(same_rows(&before.1, &after.1));
    let q = byte();
    let f = w.find(&kw(q));
    chk!(f.is_some());
    chk!(exact(&f.unwrap(), &ops, q));
    mark(0);
    observe(after.0.len() as u64);
}

/// C21: the share of the index which is compacted. `n` entries, each with one
/// duplicate to remove; the rate is a multiple of 1/16 in [-1, 3], NaN or an
/// infinity, decided by forks, or (which 1) any 64 bits.
pub fn rate(n: u64, which: u64, _: u64, _: u64) {
    order_mode(0);
    let w = World::new();
    for k in 0..n {
        chk!(w.add(d1(1, k as u8)).is_ok());
        chk!(w.add(d1(1, k as u8)).is_ok());
    }
    let c0 = w.snap().1;
    let k2 = w.ix.keygen();
    let rate = if which == 1 { f64::from_bits(var(64)) } else {
        let r = conc(var(8));
        match r { 255 => f64::NAN, 254 => f64::INFINITY, 253 => f64::NEG_INFINITY, _ => (r % 65) as f64 / 16.0 - 1.0 }
    };
    chk!(w.compact(&k2, &w.label, rate).is_ok());
    let c1 = w.snap().1;
    // two links per entry, and one once compacted
    let compacted = c0.len() - c1.len();
    chk!(compacted as u64 <= n);
    chk!(c1.iter().filter(|(t, v)| row(&c0, t).as_ref() != Some(v)).count() == compacted);
    if rate >= 1.0 { chk!(compacted as u64 == n); mark(0); }
    if !(rate > 0.0) { chk!(compacted == 0); mark(1); }
    if compacted > 0 && (compacted as u64) < n { mark(2); }
    let f = w.find_as(&k2, &w.label, &kw(0));
    chk!(f.is_some());
    if which == 0 && !(rate > 0.0 && rate < 1.0) { observe(compacted as u64); }
}

/// C23: same key and same label: refused, nothing is done.
/// `modes` 1: the lengths of the labels are symbolic (see `some_len`).
/// `keys` 1: the keys are arbitrary bytes.
pub fn refused(n: u64, m: u64, modes: u64, keys: u64) {
    order_mode(2);
    let mut w = World::new();
    let (n, m) = if modes == 1 { (some_len(n), some_len(m)) } else { (n as usize, m as usize) };
    let (a, b) = (bytes(n), bytes(m));
    let (l1, l2) = (Label::from(a.clone()), Label::from(b.clone()));
    let mut samekey = keys == 0 && flip();
    let k2 = if samekey { w.key.clone() } else if keys == 0 { w.ix.keygen() } else { any_key() };
    if keys == 1 {
        w.key = any_key();
        samekey = eq(w.key.as_bytes(), k2.as_bytes());
    }
    chk!(block_on(w.ix.add(&w.key, &l1, d1(1, 1))).is_ok());
    let before = w.snap();
    w.ctl.reset_count();
    let r = block_on(w.ix.compact(&w.key, &k2, &l1, &l2, 1.0, &|d| async { Ok(d) }));
    if samekey && eq(&a, &b) {
        chk!(r.is_err());
        chk!(w.ctl.writes() == 0);
        let after = w.snap();
        chk!(same_rows(&before.0, &after.0));
        chk!(same_rows(&before.1, &after.1));
        mark(0);
    } else {
        chk!(r.is_ok());
        let f = w.find_as(&k2, &l2, &kw(1));
        chk!(f.is_some() && f.unwrap().len() == 1);
        mark(1);
    }
    observe(w.snap().0.len() as u64);
}

/// C07, C06: pointers and data survive together, and duplicates collapse.
pub fn mixed(n: u64, rate: u64, _: u64, _: u64) {
    order_mode(2);
    let w = World::new();
    let name = |i: u64| Keyword::from(vec![b'a' + i as u8]);
    let mut edges = Vec::new();
    for i in 0..n {
        chk!(w.add(one(Iv::Data(dat(i as u8)), name(i))).is_ok());
        let j = pick(n + 1);
        edges.push(j);
        chk!(w.add(one(Iv::Pointer(name(j)), name(i))).is_ok());
    }
    let k2 = w.ix.keygen();
    chk!(w.compact(&k2, &w.label, RATES[rate as usize]).is_ok());
    for s in 0..n {
        let f = w.find_as(&k2, &w.label, &name(s));
        chk!(f.is_some());
        let f = f.unwrap();
        let mut reach = vec![false; n as usize];
        let mut i = s;
        let mut cnt = 0;
        while i < n && !reach[i as usize] { reach[i as usize] = true; cnt += 1; i = edges[i as usize]; }
        for j in 0..n { chk!(has(&f, &[j as u8]) == reach[j as usize]); }
        chk!(f.len() == cnt);
        observe(cnt as u64);
    }
    mark(0);
}
