//! Searching after additions and deletions.
use crate::api::*;
use crate::world::*;
use cosmian_findex::*;
use std::cell::{Cell, RefCell};
use std::collections::{HashMap, HashSet};
use std::rc::Rc;
const FILE: u64 = 1;

/// C01, C05, C22: `n` operations on symbolic associations, one call each.
/// which: 0 results of a search, 1 newly created keywords, 2 search is read-only.
pub fn hist(n: u64, which: u64, mode: u64, _: u64) {
    order_mode(mode);
    let w = World::new();
    let mut ops: Vec<Op> = Vec::new();
    for _ in 0..n {
        let o = sym_op();
        let r = apply(&w, &o);
        chk!(r.is_ok());
        if which == 1 {
            let r = r.unwrap();
            let mut seen = false;
            for p in &ops { seen |= p.k == o.k; }
            chk!((r.len() == 0) | (r.len() == 1));
            chk!((r.len() == 1) == !seen);
            for k in r.iter() { chk!(eq(k, &[o.k])); }
            observe(r.len() as u64);
        }
        ops.push(o);
    }
    mark(0);
    if which == 1 { return; }
    let q = byte();
    let before = w.snap();
    w.ctl.reset_count();
    let f = w.find(&kw(q));
    chk!(f.is_some());
    let f = f.unwrap();
    if which == 0 {
        chk!(exact(&f, &ops, q));
        observe(f.len() as u64);
        if f.len() >= 2 { mark(1); }
        if f.len() == 0 { mark(2); }
    } else {
        chk!(w.ctl.writes() == 0);
        let after = w.snap();
        chk!(same_rows(&before.0, &after.0));
        chk!(same_rows(&before.1, &after.1));
        // the same search finds the same data again
        let g = w.find(&kw(q));
        chk!(g.is_some());
        let g = g.unwrap();
        chk!(g.len() == f.len());
        for x in &f { chk!(has(&g, x)); }
        observe(f.len() as u64);
    }
}

/// C01, C05: calls holding several associations, and searches of several keywords.
/// A batch of `n` additions, then a batch of `m` deletions, then `l` additions.
pub fn batch(n: u64, m: u64, l: u64, which: u64) {
    order_mode(2);
    let w = World::new();
    let mut ops: Vec<Op> = Vec::new();
    for (cnt, add) in [(n, true), (m, false), (l, true)] {
        if cnt == 0 { continue; }
        let mut v = Vec::new();
        let mut now = Vec::new();
        for _ in 0..cnt {
            let k = byte();
            let d = byte();
            v.push((Iv::Data(dat(d)), kw(k)));
            now.push(Op { add, k, d });
        }
        let r = w.op(add, group(v));
        chk!(r.is_ok());
        if which == 1 {
            let r: Vec<Vec<u8>> = r.unwrap().iter().map(|k| k.to_vec()).collect();
            for x in &now {
                let mut seen = false;
                for p in &ops { seen |= p.k == x.k; }
                chk!(has(&r, &[x.k]) == !seen);
            }
            for k in &r {
                let mut mine = false;
                for x in &now { mine |= eq(k, &[x.k]); }
                chk!(mine);
            }
            observe(r.len() as u64);
        }
        ops.extend(now);
    }
    mark(0);
    if which == 1 { return; }
    let (p, q) = (byte(), byte());
    let r = w.search(&[kw(p), kw(q)]);
    chk!(r.is_ok());
    let r = r.unwrap();
    chk!(r.len() == if p == q { 1 } else { 2 });
    for x in [p, q] {
        let f = r.get(&kw(x)).map(list);
        chk!(f.is_some());
        let f = f.unwrap();
        chk!(exact(&f, &ops, x));
        observe(f.len() as u64);
        if f.len() >= 2 { mark(1); }
    }
}

/// C01: long chains. `n` concrete data under one keyword, added in calls of
/// `m`, then one symbolic operation on one of them; several links are used.
pub fn long(n: u64, m: u64, extra: u64, len: u64) {
    order_mode(2);
    let w = World::new();
    let val = |i: u64| -> Vec<u8> {
        let mut v = vec![0x40; len as usize];
        v[0] = i as u8;
        if len > 1 { v[1] = (i >> 8) as u8; }
        v
    };
    let mut i = 0;
    while i < n {
        let mut v = Vec::new();
        for j in i..(i + m).min(n) { v.push((Iv::Data(Data::from(val(j))), kw(7))); }
        chk!(w.add(group(v)).is_ok());
        i += m;
    }
    let mut alive = vec![true; n as usize];
    for _ in 0..extra {
        let add = flip();
        let d = some_index(n);
        chk!(w.op(add, one(Iv::Data(Data::from(val(d))), kw(7))).is_ok());
        alive[d as usize] = add;
    }
    let f = w.find(&kw(7));
    chk!(f.is_some());
    let f = f.unwrap();
    let mut cnt = 0;
    for j in 0..n {
        chk!(has(&f, &val(j)) == alive[j as usize]);
        cnt += alive[j as usize] as usize;
    }
    chk!(f.len() == cnt);
    mark(0);
    observe(cnt as u64);
}

/// C02: one value of any length up to `max` and any content, data or pointer,
/// found again, also after a second value was added, and after a compaction.
pub fn value(lo: u64, hi: u64, pointer: u64, compacted: u64) {
    order_mode(0);
    let w = World::new();
    let n = (lo + pick(hi - lo + 1)) as usize;
    let v = bytes(n);
    let mut v2 = v.clone();
    v2.push(byte());
    let k = kw(1);
    if pointer == 1 {
        // the value is a keyword, which itself indexes a datum
        let p = Keyword::from(v.clone());
        if n == 1 { assume(v[0] != 1); }
        chk!(w.add(group(vec![(Iv::Pointer(p.clone()), k.clone()), (Iv::Data(dat(9)), p.clone())])).is_ok());
    } else {
        chk!(w.add(one(Iv::Data(Data::from(v.clone())), k.clone())).is_ok());
        chk!(w.add(one(Iv::Data(Data::from(v2.clone())), k.clone())).is_ok());
    }
    let mut k2 = w.key.clone();
    if compacted == 1 {
        k2 = w.ix.keygen();
        chk!(w.compact(&k2, &w.label, 1.0).is_ok());
    }
    let f = w.find_as(&k2, &w.label, &k);
    chk!(f.is_some());
    let f = f.unwrap();
    mark(0);
    observe(f.len() as u64);
    if pointer == 1 {
        chk!(f.len() == 1);
        chk!(has(&f, &[9]));
        return;
    }
    chk!(f.len() == 2);
    chk!(has(&f, &v));
    chk!(has(&f, &v2));
    if compacted == 0 {
        // deleting the value removes it, and nothing else
        chk!(w.delete(one(Iv::Data(Data::from(v.clone())), k.clone())).is_ok());
        let f = w.find(&k);
        chk!(f.is_some());
        let f = f.unwrap();
        chk!(f.len() == 1);
        chk!(has(&f, &v2));
    }
}

/// C02: several values of arbitrary lengths in the same call.
pub fn values(n: u64, max: u64, _: u64, _: u64) {
    order_mode(2);
    let w = World::new();
    let k = kw(1);
    let mut vs: Vec<Vec<u8>> = Vec::new();
    let mut m = Vec::new();
    for i in 0..n {
        // lengths around the boundaries of blocks and lines
        let l = match pick(max) { 0 => 0, 1 => 14, 2 => 15, 3 => 16, 4 => 63, 5 => 79, 6 => 80, _ => 31 };
        let mut v = vec![0u8; l];
        for b in v.iter_mut() { *b = 0x30; }
        if l > 0 { v[0] = byte(); v[l - 1] = byte(); }
        v.push(i as u8);
        m.push((Iv::Data(Data::from(v.clone())), k.clone()));
        vs.push(v);
    }
    chk!(w.add(group(m)).is_ok());
    let f = w.find(&k);
    chk!(f.is_some());
    let f = f.unwrap();
    chk!(f.len() == n as usize);
    for v in &vs { chk!(has(&f, v)); }
    mark(0);
    observe(f.len() as u64);
}

/// C02: keywords of any length and content are distinguished exactly.
/// `max`: their lengths (see `some_len`).
pub fn keyword(max: u64, _: u64, _: u64, _: u64) {
    order_mode(0);
    let w = World::new();
    let (a, b) = (some_len(max), some_len(max));
    let ka = bytes(a);
    let kb = bytes(b);
    chk!(w.add(one(Iv::Data(dat(5)), Keyword::from(ka.clone()))).is_ok());
    let f = w.find(&Keyword::from(kb.clone()));
    chk!(f.is_some());
    let f = f.unwrap();
    let same = eq(&ka, &kb);
    chk!((f.len() == 1) == same);
    chk!(has(&f, &[5]) == same);
    mark(if f.len() == 1 { 0 } else { 1 });
    observe(f.len() as u64);
}

/// Data reachable from `from`, in a graph given by its adjacency matrix.
fn reach(n: usize, e: &[bool], from: usize) -> Vec<bool> {
    let mut r = vec![false; n];
    r[from] = true;
    for _ in 0..n {
        for i in 0..n { for j in 0..n { if r[i] && e[i * n + j] { r[j] = true; } } }
    }
    r
}

/// C03: any graph on `n` keywords, and a last one which is not indexed.
/// mode 0: one call; 1: one call per keyword; 2: every edge first added, then
/// the absent ones deleted. `queries`: number of keywords searched at once.
pub fn graph(n: u64, mode: u64, queries: u64, order: u64) {
    order_mode(order);
    let n = n as usize;
    let w = World::new();
    let name = |i: usize| Keyword::from(vec![b'a' + i as u8; 1 + i]);
    let mut e = vec![false; n * n];
    for x in e.iter_mut() { *x = flip(); }
    let mut all = Vec::new();
    let mut del = Vec::new();
    for i in 0..n {
        let mut own = vec![(Iv::Data(dat(i as u8)), name(i)), (Iv::Pointer(Keyword::from("nowhere")), name(i))];
        for j in 0..n {
            if e[i * n + j] || mode == 2 { own.push((Iv::Pointer(name(j)), name(i))); }
            if !e[i * n + j] { del.push((Iv::Pointer(name(j)), name(i))); }
        }
        if mode == 1 { chk!(w.add(group(own)).is_ok()); } else { all.extend(own); }
    }
    if mode != 1 { chk!(w.add(group(all)).is_ok()); }
    if mode == 2 && !del.is_empty() { chk!(w.delete(group(del)).is_ok()); }
    let mut q: Vec<Keyword> = (0..queries as usize).map(name).collect();
    q.push(Keyword::from("nowhere"));
    let r = w.search(&q);
    chk!(r.is_ok());
    let r = r.unwrap();
    chk!(r.len() == q.len());
    for (i, k) in q.iter().enumerate() {
        let f = r.get(k).map(list);
        chk!(f.is_some());
        let f = f.unwrap();
        observe(f.len() as u64);
        if i + 1 == q.len() { chk!(f.is_empty()); continue; }
        let reach = reach(n, &e, i);
        let mut cnt = 0;
        for (j, x) in reach.iter().enumerate() {
            chk!(has(&f, &[j as u8]) == *x);
            cnt += *x as usize;
        }
        chk!(f.len() == cnt);
        if cnt == n { mark(0); }
        if cnt == 1 { mark(1); }
    }
}

/// C03: a chain of `n` pointers, which may go back to any keyword. few: only
/// the first, middle and last ones.
pub fn deep(n: u64, few: u64, _: u64, _: u64) {
    order_mode(0);
    let w = World::new();
    let some = |n| if few == 1 { [0, n / 2, n - 1][pick(3) as usize] } else { some_index(n) };
    let name = |i: u64| Keyword::from(id(i));
    let back = some(n);
    let mut v = Vec::new();
    for i in 0..n {
        v.push((Iv::Data(Data::from(id(i))), name(i)));
        v.push((Iv::Pointer(name(if i + 1 < n { i + 1 } else { back })), name(i)));
    }
    chk!(w.add(group(v)).is_ok());
    let s = some(n);
    let f = w.find(&name(s));
    chk!(f.is_some());
    let f = f.unwrap();
    for i in 0..n { chk!(has(&f, &id(i)) == ((i >= s) | (i >= back))); }
    mark(0);
    observe(f.len() as u64);
}

/// C20: the interrupt callback, on a graph of `n` levels.
/// `err`: the callback may also fail.
pub fn interrupt(n: u64, err: u64, _: u64, _: u64) {
    order_mode(1);
    let w = World::new();
    let name = |i: u64| Keyword::from(id(i));
    let mut v = Vec::new();
    for i in 0..n {
        v.push((Iv::Data(Data::from(id(i))), name(i)));
        if i + 1 < n { v.push((Iv::Pointer(name(i + 1)), name(i))); }
    }
    chk!(w.add(group(v)).is_ok());
    // number of iterations before the interruption
    let stop = some_index(n + 1);
    let fail = err == 1 && flip();
    type Seen = Vec<HashMap<Keyword, HashSet<Iv>>>;
    let seen: Rc<RefCell<Seen>> = Rc::new(RefCell::new(Vec::new()));
    let s2 = seen.clone();
    // calls to the database made when the search is interrupted
    let calls = Rc::new(Cell::new(0));
    let c2 = calls.clone();
    w.ctl.reset_count();
    let r = crate::db::block_on(w.ix.search(&w.key, &w.label, Keywords::from_iter([name(0)]), &|m| {
        s2.borrow_mut().push(m);
        let i = s2.borrow().len() as u64;
        if i == stop + 1 { c2.set(w.ctl.total()); }
        async move { if i == stop + 1 { if fail { Err("interrupted".to_string()) } else { Ok(true) } } else { Ok(false) } }
    }));
    let seen = seen.borrow();
    let expected = if stop < n { stop + 1 } else { n };
    chk!(seen.len() as u64 == expected);
    observe(seen.len() as u64);
    // each iteration is given what it has found, level by level
    for (i, m) in seen.iter().enumerate() {
        chk!(m.len() == 1);
        let s = m.get(&name(i as u64));
        chk!(s.is_some());
        let s = s.unwrap();
        chk!(s.contains(&Iv::Data(Data::from(id(i as u64)))));
        chk!(s.contains(&Iv::Pointer(name(i as u64 + 1))) == (i as u64 + 1 < n));
        chk!(s.len() == if (i as u64) + 1 < n { 2 } else { 1 });
    }
    // no call to the database once interrupted
    if stop < n { chk!(w.ctl.total() == calls.get()); }
    if fail && stop < n {
        chk!(matches!(r, Err(Error::Interrupt(_))));
        mark(1);
        return;
    }
    chk!(r.is_ok());
    let f = list(r.unwrap().get(&name(0)).unwrap());
    for i in 0..n { chk!(has(&f, &id(i)) == (i < expected)); }
    chk!(f.len() as u64 == expected);
    mark(0);
}

/// C24: an operation on a keyword only touches the lines of this keyword.
pub fn frame(n: u64, _: u64, _: u64, _: u64) {
    order_mode(2);
    let w = World::new();
    let mut ops = Vec::new();
    for i in 0..n {
        let o = Op { add: true, k: byte(), d: i as u8 };
        chk!(apply(&w, &o).is_ok());
        ops.push(o);
    }
    let (e0, c0) = w.snap();
    let o = sym_op();
    chk!(apply(&w, &o).is_ok());
    let (e1, c1) = w.snap();
    // one entry is written, one line is appended, the rest is untouched
    let mut seen = false;
    for p in &ops { seen |= p.k == o.k; }
    chk!(within(&c0, &c1));
    chk!(c1.len() == c0.len() + 1);
    let changed = e0.iter().filter(|(t, v)| row(&e1, t).as_ref() != Some(v)).count();
    chk!(e0.iter().all(|(t, _)| row(&e1, t).is_some()));
    chk!(changed == if seen { 1 } else { 0 });
    chk!(e1.len() == e0.len() + if seen { 0 } else { 1 });
    mark(if seen { 0 } else { 1 });
    observe(e1.len() as u64);
}

/// C01, C05: calls which have nothing to do.
pub fn empty(_: u64, _: u64, _: u64, _: u64) {
    order_mode(0);
    let w = World::new();
    let base = flip();
    if base { chk!(w.add(d1(1, 1)).is_ok()); }
    let before = w.snap();
    let nothing = || IndexedValueToKeywordsMap::from_iter(Vec::<(Iv, Keywords)>::new());
    let no_keyword = || IndexedValueToKeywordsMap::from_iter([(Iv::Data(dat(byte())), Keywords::default())]);
    for m in [nothing(), no_keyword()] {
        let r = w.op(flip(), m);
        chk!(r.is_ok() && r.unwrap().is_empty());
    }
    let r = w.search(&[]);
    chk!(r.is_ok() && r.unwrap().is_empty());
    let q = byte();
    let f = w.find(&kw(q));
    chk!(f.is_some() && f.unwrap().len() == (base && q == 1) as usize);
    let after = w.snap();
    chk!(same_rows(&before.0, &after.0) && same_rows(&before.1, &after.1));
    // deleting what was never added
    let o = Op { add: false, k: q, d: 7 };
    chk!(apply(&w, &o).is_ok());
    let f = w.find(&kw(q));
    chk!(f.is_some() && f.unwrap().len() == (base && q == 1) as usize);
    if !base {
        // the compaction of an empty index, and of one which holds nothing
        let w = World::new();
        let k2 = w.ix.keygen();
        chk!(w.compact(&k2, &w.label, 1.0).is_ok());
        chk!(w.snap().0.is_empty() && w.snap().1.is_empty());
    }
    mark(0);
    observe(before.0.len() as u64);
}
