//! Larger and mixed scenarios.
use crate::api::*;
use crate::db::*;
use crate::world::*;
use cosmian_crypto_core::reexport::rand_core::{RngCore, SeedableRng};
use cosmian_crypto_core::CsRng;
use cosmian_findex::*;
use std::cell::RefCell;
use std::collections::{HashMap, HashSet};
use std::rc::Rc;
const FILE: u64 = 6;
const RATES: [f64; 4] = [1.0, 0.0, 0.2, 0.45];

/// C01, C05, C06: many keywords and many values in the same call. `n` keywords
/// hold `m` data each, every third keyword points to the next one. Some data
/// are then deleted, some keywords are added, and the index may be compacted.
/// how: 0 no compaction, 1 + a rate otherwise; 10 is added to use long values.
pub fn many(n: u64, m: u64, how: u64, order: u64) {
    order_mode(order);
    let mut w = World::new();
    let long = how >= 10;
    let how = how % 10;
    let name = |i: u64| Keyword::from(vec![b'k', (i / 250) as u8, (i % 250) as u8]);
    let val = |i: u64, j: u64| -> Vec<u8> {
        let mut v = vec![(i / 250) as u8, (i % 250) as u8, (j / 250) as u8, (j % 250) as u8];
        if long { v.resize(20 + (j % 70) as usize, 0x55); }
        v
    };
    let data = |i: u64, j: u64| Iv::Data(Data::from(val(i, j)));
    let mut all = Vec::new();
    for i in 0..n {
        for j in 0..m { all.push((data(i, j), name(i))); }
        if i % 3 == 0 && i + 1 < n { all.push((Iv::Pointer(name(i + 1)), name(i))); }
    }
    let r = w.add(group(all));
    chk!(r.is_ok());
    let r = r.unwrap();
    chk!(r.len() as u64 == n);
    for i in 0..n { chk!(r.contains(&name(i))); }
    // a second call: one value is deleted from one keyword of each half, and
    // one is added to another keyword, and to a new one
    let (a, b, j) = (pick(2), pick(2), pick(m.min(3)));
    let dead = [(a.min(n - 1), j.min(m - 1)), (n / 2 + b * (n - 1 - n / 2), m - 1 - j.min(m - 1))];
    let r = w.delete(group(dead.iter().map(|(i, j)| (data(*i, *j), name(*i))).collect()));
    chk!(r.is_ok() && r.unwrap().is_empty());
    let r = w.add(group(vec![(data(n - 1, 901), name(n - 1)), (data(n, 0), name(n))]));
    chk!(r.is_ok());
    let r = r.unwrap();
    chk!(r.len() == 1 && r.contains(&name(n)));
    let own = |i: u64| -> Vec<Vec<u8>> {
        let mut v: Vec<Vec<u8>> = Vec::new();
        if i == n { v.push(val(n, 0)); return v; }
        for j in 0..m { if !dead.contains(&(i, j)) { v.push(val(i, j)); } }
        if i == n - 1 { v.push(val(n - 1, 901)); }
        v
    };
    let check = |w: &World| {
        let q: Vec<Keyword> = (0..=n).map(name).collect();
        let r = w.search(&q);
        chk!(r.is_ok());
        let r = r.unwrap();
        chk!(r.len() as u64 == n + 1);
        let mut total = 0;
        for i in 0..=n {
            let f = r.get(&name(i));
            chk!(f.is_some());
            let f = f.unwrap();
            let mut exp = own(i);
            if i % 3 == 0 && i + 1 < n { exp.extend(own(i + 1)); }
            chk!(f.len() == exp.len());
            for x in &exp { chk!(f.contains(&Data::from(x.clone()))); }
            total += f.len();
        }
        observe(total as u64);
    };
    check(&w);
    if how > 0 {
        let (k2, l2) = (w.ix.keygen(), Label::from("new"));
        chk!(w.compact(&k2, &l2, RATES[how as usize - 1]).is_ok());
        w.key = k2;
        w.label = l2;
        check(&w);
        // a full compaction drops the keywords which have nothing left
        let lines = w.snap().0.len() as u64;
        let empty = (0..n).filter(|i| own(*i).is_empty() && (i % 3 != 0 || i + 1 >= n)).count() as u64;
        chk!(lines <= n + 1 && lines >= n + 1 - empty);
        // the index goes on working
        let r = w.add(group(vec![(data(n, 0), name(n)), (data(n + 1, 0), name(n + 1))]));
        chk!(r.is_ok());
        let r = r.unwrap();
        chk!(r.len() == 1 && r.contains(&name(n + 1)));
        check(&w);
    }
    mark(0);
}

/// C02: long values, of `lo` + a multiple of `step` bytes, `n` of them.
/// mode: 1 pointer, 2 compacted.
pub fn big(lo: u64, step: u64, n: u64, mode: u64) {
    order_mode(0);
    let w = World::new();
    let len = (lo + step * pick(n)) as usize;
    let mut v: Vec<u8> = (0..len).map(|i| (i * 7 + i / 256) as u8).collect();
    // some bytes are arbitrary
    let mut i = 0;
    while i < len { v[i] = byte(); i = i * 3 + 1; }
    v[len - 1] = byte();
    v[len / 2] = byte();
    let other = v[..len - 1].to_vec();
    let k = kw(1);
    if mode == 1 {
        let p = Keyword::from(v.clone());
        chk!(w.add(group(vec![(Iv::Pointer(p.clone()), k.clone()), (Iv::Data(dat(9)), p.clone())])).is_ok());
    } else {
        chk!(w.add(one(Iv::Data(Data::from(v.clone())), k.clone())).is_ok());
        chk!(w.add(one(Iv::Data(Data::from(other.clone())), k.clone())).is_ok());
    }
    let mut k2 = w.key.clone();
    if mode == 2 {
        k2 = w.ix.keygen();
        chk!(w.compact(&k2, &w.label, 1.0).is_ok());
    }
    let f = w.find_as(&k2, &w.label, &k);
    chk!(f.is_some());
    let f = f.unwrap();
    if mode == 1 { chk!(f.len() == 1 && has(&f, &[9])); } else { chk!(f.len() == 2 && has(&f, &v) && has(&f, &other)); }
    mark(0);
    observe(f.len() as u64);
}

/// C07: `n` distinct values of symbolic lengths in one call, some of which are
/// deleted, then a compaction of the whole index.
pub fn pack(n: u64, lo: u64, hi: u64, order: u64) {
    order_mode(order);
    let w = World::new();
    let vals: Vec<Vec<u8>> = (0..n).map(|i| {
        let mut v = vec![0x41u8; (lo + pick(hi - lo + 1)) as usize];
        v.push(i as u8);
        v
    }).collect();
    let iv = |i: usize| Iv::Data(Data::from(vals[i].clone()));
    chk!(w.add(group((0..n as usize).map(|i| (iv(i), kw(1))).collect())).is_ok());
    let mut alive = vec![true; n as usize];
    let gone = pick(n + 1) as usize;
    if gone < n as usize { chk!(w.delete(one(iv(gone), kw(1))).is_ok()); alive[gone] = false; }
    let k2 = w.ix.keygen();
    chk!(w.compact(&k2, &w.label, 1.0).is_ok());
    let (mut blocks, mut cnt) = (0, 0);
    for i in 0..n as usize { if alive[i] { blocks += (1 + vals[i].len()) / BLOCK_LENGTH + 1; cnt += 1; } }
    let (e, c) = w.snap();
    chk!(e.len() == (cnt > 0) as usize);
    chk!(c.len() <= (blocks + LINE_WIDTH - 1) / LINE_WIDTH);
    let f = w.find_as(&k2, &w.label, &kw(1));
    chk!(f.is_some());
    let f = f.unwrap();
    chk!(f.len() == cnt);
    for i in 0..n as usize { chk!(has(&f, &vals[i]) == alive[i]); }
    observe(cnt as u64);
    mark(0);
}

/// C14: two indexes in the same tables, under any keywords and labels (see
/// `some_len` for their lengths), and the same key or not.
pub fn domains(kl: u64, ll: u64, same_len: u64, _: u64) {
    order_mode(0);
    let w = World::new();
    let (k1, l1) = (bytes(some_len(kl)), bytes(some_len(ll)));
    let (k2, l2) = if same_len == 1 { (bytes(k1.len()), bytes(l1.len())) } else { (bytes(some_len(kl)), bytes(some_len(ll))) };
    let keys = [w.key.clone(), w.ix.keygen()];
    let b = pick(2) as usize;
    let same = b == 0 && eq(&k1, &k2) && eq(&l1, &l2);
    let (kk1, kk2) = (Keyword::from(k1), Keyword::from(k2));
    let (ll1, ll2) = (Label::from(l1), Label::from(l2));
    let r = block_on(w.ix.add(&keys[0], &ll1, one(Iv::Data(dat(1)), kk1.clone())));
    chk!(r.is_ok() && r.unwrap().len() == 1);
    let before = w.snap();
    let f = w.find_as(&keys[b], &ll2, &kk2);
    chk!(f.is_some());
    chk!(f.unwrap().len() == same as usize);
    let r = block_on(w.ix.add(&keys[b], &ll2, one(Iv::Data(dat(2)), kk2.clone())));
    chk!(r.is_ok());
    chk!(r.unwrap().len() == !same as usize);
    let after = w.snap();
    if !same { chk!(within(&before.0, &after.0)); }
    chk!(within(&before.1, &after.1));
    let f = w.find_as(&keys[0], &ll1, &kk1);
    chk!(f.is_some());
    let f = f.unwrap();
    chk!(has(&f, &[1]));
    chk!(has(&f, &[2]) == same);
    let g = w.find_as(&keys[b], &ll2, &kk2);
    chk!(g.is_some());
    let g = g.unwrap();
    chk!(has(&g, &[2]));
    chk!(has(&g, &[1]) == same);
    mark(same as u64);
    observe(f.len() as u64);
}

/// C20, C03: what the callback is given on any graph of `n` keywords, from two
/// roots, and what is returned when it interrupts the search.
pub fn levels(n: u64, order: u64, fails: u64, blank: u64) {
    order_mode(order);
    let n = n as usize;
    let w = World::new();
    let name = |i: usize| Keyword::from(vec![b'a' + i as u8]);
    let mut e = vec![false; n * n];
    for (i, x) in e.iter_mut().enumerate() { *x = i / n != i % n && flip(); }
    // keywords without data, never indexed or deleted
    let hollow: Vec<bool> = (0..n).map(|_| blank == 1 && flip()).collect();
    let gone = blank == 1 && flip();
    let mut all = Vec::new();
    for i in 0..n {
        if !hollow[i] || gone { all.push((Iv::Data(dat(i as u8)), name(i))); }
        for j in 0..n { if e[i * n + j] { all.push((Iv::Pointer(name(j)), name(i))); } }
    }
    chk!(w.add(group(all)).is_ok());
    if gone { chk!(w.delete(group((0..n).filter(|i| hollow[*i]).map(|i| (Iv::Data(dat(i as u8)), name(i))).collect())).is_ok()); }
    let stop = pick(n as u64 + 1) as usize;
    type Seen = Vec<HashMap<Keyword, HashSet<Iv>>>;
    let seen: Rc<RefCell<Seen>> = Rc::new(RefCell::new(Vec::new()));
    let s2 = seen.clone();
    let r = block_on(w.ix.search(&w.key, &w.label, Keywords::from_iter([name(0), name(1)]), &|m| {
        s2.borrow_mut().push(m);
        let i = s2.borrow().len();
        async move { if i == stop + 1 { if fails == 1 { Err("callback".to_string()) } else { Ok(true) } } else { Ok(false) } }
    }));
    let seen = seen.borrow();
    // reference: the keywords first reached at each level
    let mut known = vec![false; n];
    let mut front: Vec<usize> = vec![0, 1];
    let mut level = 0;
    while !front.is_empty() && level <= stop {
        chk!(seen.len() > level);
        let m = &seen[level];
        for i in &front {
            let nothing = hollow[*i] && (0..n).all(|j| !e[*i * n + j]);
            chk!(nothing || m.contains_key(&name(*i)));
            known[*i] = true;
        }
        // what is given is right, for each keyword
        for i in 0..n {
            if let Some(s) = m.get(&name(i)) {
                chk!(known[i]);
                let mut cnt = !hollow[i] as usize;
                chk!(s.contains(&Iv::Data(dat(i as u8))) == !hollow[i]);
                for j in 0..n { if e[i * n + j] { cnt += 1; chk!(s.contains(&Iv::Pointer(name(j)))); } }
                chk!(s.len() == cnt);
            }
        }
        let mut next = Vec::new();
        for j in 0..n { if !known[j] && front.iter().any(|i| e[*i * n + j]) { next.push(j); } }
        front = next;
        level += 1;
    }
    if seen.len() > stop {
        chk!(seen.len() == stop + 1);
        mark(1);
        if fails == 1 { chk!(matches!(r, Err(Error::Interrupt(_)))); return; }
    }
    chk!(r.is_ok());
    let r = r.unwrap();
    chk!(r.len() == 2);
    // what is reachable through the keywords seen
    for root in 0..2 {
        let f = r.get(&name(root)).map(list);
        chk!(f.is_some());
        let f = f.unwrap();
        let mut reach = vec![false; n];
        reach[root] = true;
        for _ in 0..n { for i in 0..n { for j in 0..n { if reach[i] && known[i] && e[i * n + j] { reach[j] = true; } } } }
        let mut cnt = 0;
        for i in 0..n {
            let is = reach[i] && known[i] && !hollow[i];
            chk!(has(&f, &[i as u8]) == is);
            cnt += is as usize;
        }
        chk!(f.len() == cnt);
    }
    observe(seen.len() as u64);
    mark(0);
}

/// C22: a search does not write, whatever the state of the tables: after a
/// client has stopped at any call of its operation, and with pointers, missing
/// keywords, several labels, or altered lines.
pub fn pure(how: u64, order: u64, _: u64, _: u64) {
    order_mode(order);
    let w = World::new();
    let base = flip();
    if base { chk!(w.add(group(vec![(Iv::Data(dat(1)), kw(1)), (Iv::Pointer(kw(2)), kw(1)), (Iv::Data(dat(2)), kw(3))])).is_ok()); }
    if how < 4 {
        let k = 1 + pick(3) as u8;
        let m = group(vec![(Iv::Data(dat(7)), kw(k)), (Iv::Pointer(kw(3)), kw(2))]);
        w.ctl.arm([Fault::Before, Fault::After, Fault::CrashBefore, Fault::CrashAfter][how as usize], pick(4));
        if flip() { let _ = run(&w.ctl, w.ix.add(&w.key, &w.label, m)); } else { let _ = run(&w.ctl, w.ix.delete(&w.key, &w.label, m)); }
        w.ctl.disarm();
    } else if how == 4 {
        // lines are missing
        chk!(w.add(d1(3, 1)).is_ok());
        let (e, c) = w.snap();
        if flip() { block_on(w.et.db.delete(Tokens::from_iter([e[pick(e.len() as u64) as usize].0]))).unwrap(); } else { block_on(w.ct.db.delete(Tokens::from_iter([c[pick(c.len() as u64) as usize].0]))).unwrap(); }
    } else if how == 5 {
        // a line is altered
        chk!(w.add(d1(3, 1)).is_ok());
        let (e, c) = w.snap();
        if flip() {
            let (t, mut v) = e[pick(e.len() as u64) as usize].clone();
            v.ciphertext[0] ^= 1 + (byte() & 7);
            put_line(&w.et.db, t, v);
        } else {
            let (t, mut v) = c[pick(c.len() as u64) as usize].clone();
            v.ciphertext[0] ^= 1 + (byte() & 7);
            put_line(&w.ct.db, t, v);
        }
    }
    let before = w.snap();
    w.ctl.reset_count();
    let q = byte();
    let other = flip();
    let l = if other { Label::from("other") } else { w.label.clone() };
    for qs in [vec![kw(q)], vec![kw(1), kw(2), kw(3), kw(q)]] {
        let stop = flip();
        let search = || block_on(w.ix.search(&w.key, &l, Keywords::from_iter(qs.iter().cloned()), &|_| async move { Ok(stop) }));
        let (a, b) = (search(), search());
        chk!(a.is_ok() == b.is_ok());
        if let (Ok(a), Ok(b)) = (a, b) {
            chk!(a.len() == b.len());
            for k in &qs { chk!(a.get(k) == b.get(k)); }
        }
    }
    chk!(w.ctl.writes() == 0);
    let after = w.snap();
    chk!(same_rows(&before.0, &after.0));
    chk!(same_rows(&before.1, &after.1));
    mark(0);
    observe(after.0.len() as u64 * 100 + after.1.len() as u64);
}

/// C24: one call on several keywords, with data and pointers of several
/// lengths: only the entries of these keywords are written.
pub fn touch(n: u64, m: u64, order: u64, _: u64) {
    order_mode(order);
    let w = World::new();
    let mut known: Vec<u8> = Vec::new();
    let mut pre = Vec::new();
    for i in 0..n {
        let k = byte();
        pre.push((if i == 0 { Iv::Pointer(kw(200)) } else { Iv::Data(dat(i as u8)) }, kw(k)));
        known.push(k);
    }
    if n > 0 { chk!(w.add(group(pre)).is_ok()); }
    let (e0, c0) = w.snap();
    let mut mine: Vec<(u8, usize)> = Vec::new();
    let mut v = Vec::new();
    for i in 0..m {
        let k = byte();
        let len = [1, 16, 90][pick(3) as usize];
        let mut x = vec![0x33u8; len];
        x[0] = i as u8;
        v.push((if flip() { Iv::Pointer(Keyword::from(x)) } else { Iv::Data(Data::from(x)) }, kw(k)));
        let b = (1 + len) / BLOCK_LENGTH + 1;
        match mine.iter_mut().find(|y| y.0 == k) { Some(y) => y.1 += b, None => mine.push((k, b)) }
    }
    let add = flip();
    let r = w.op(add, group(v));
    chk!(r.is_ok());
    let r = r.unwrap();
    let (e1, c1) = w.snap();
    let mut fresh = 0;
    for (k, _) in &mine {
        let old = known.iter().any(|x| x == k);
        chk!(r.contains(&kw(*k)) == !old);
        fresh += !old as usize;
    }
    chk!(r.len() == fresh);
    chk!(within(&c0, &c1));
    let lines: usize = mine.iter().map(|x| (x.1 + LINE_WIDTH - 1) / LINE_WIDTH).sum();
    chk!(c1.len() <= c0.len() + lines && c1.len() >= c0.len() + mine.len());
    chk!(e0.iter().all(|(t, _)| row(&e1, t).is_some()));
    let changed = e0.iter().filter(|(t, v)| row(&e1, t).as_ref() != Some(v)).count();
    chk!(changed == mine.len() - fresh);
    chk!(e1.len() == e0.len() + fresh);
    mark((fresh > 0) as u64);
    observe(e1.len() as u64);
}

/// C04: the encrypted dictionaries: `n` calls on `nt` tokens of a table.
fn dx<const N: usize, E: DxEnc<N, EncryptedValue = EncryptedValue<N>>>(e: &E, n: u64, nt: usize, upserts: bool) {
    let mut rng = CsRng::from_seed([3; 32]);
    let (s1, s2) = (e.gen_seed(&mut rng), e.gen_seed(&mut rng));
    let (k1, k2) = (e.derive_keys(&s1), e.derive_keys(&s2));
    let lab = Label::from("dictionary");
    let tok: Vec<Token> = (0..nt).map(|i| e.tokenize(&k1, &[i as u8; 32], Some(&lab))).collect();
    for i in 0..nt { for j in 0..i { chk!(tok[i] != tok[j]); } chk!(tok[i] == e.tokenize(&k1, &[i as u8; 32], Some(&lab))); }
    let mut model: Vec<Option<(EncryptedValue<N>, [u8; N])>> = vec![None; nt];
    let mut make = || {
        let mut p = [7u8; N];
        p[0] = byte();
        p[N - 1] = byte();
        let v = e.prepare(&mut rng, &k1, p);
        chk!(v.is_ok());
        (v.unwrap(), p)
    };
    for _ in 0..n {
        match pick(2 + upserts as u64) {
            0 => {
                let new: Vec<_> = (0..nt).map(|_| if flip() { Some(make()) } else { None }).collect();
                let m: HashMap<Token, EncryptedValue<N>> = (0..nt).filter_map(|i| new[i].as_ref().map(|x| (tok[i], x.0.clone()))).collect();
                let clash = (0..nt).any(|i| new[i].is_some() && model[i].is_some());
                chk!(block_on(e.insert(m)).is_err() == clash);
                if !clash { for (i, x) in new.into_iter().enumerate() { if x.is_some() { model[i] = x; } } } else { mark(1); }
            }
            1 => {
                let mut t = HashSet::new();
                for i in 0..nt { if flip() { t.insert(tok[i]); model[i] = None; } }
                chk!(block_on(e.delete(t)).is_ok());
            }
            _ => {
                // per token: no expected value, the stored one, or another one
                let mut old: Vec<Option<EncryptedValue<N>>> = Vec::new();
                for i in 0..nt { old.push(match pick(3) { 0 => None, 1 => match &model[i] { Some(x) => Some(x.0.clone()), None => None }, _ => Some(make().0) }); }
                let new: Vec<_> = (0..nt).map(|_| if flip() { Some(make()) } else { None }).collect();
                let om = (0..nt).filter_map(|i| old[i].clone().map(|x| (tok[i], x))).collect();
                let nm = (0..nt).filter_map(|i| new[i].as_ref().map(|x| (tok[i], x.0.clone()))).collect();
                let missing = (0..nt).any(|i| old[i].is_some() && model[i].is_none());
                let r = block_on(e.upsert(om, nm));
                chk!(r.is_err() == missing);
                if missing { mark(2); continue; }
                let r = r.unwrap();
                let mut cnt = 0;
                for (i, x) in new.into_iter().enumerate() {
                    if x.is_none() { chk!(!r.contains_key(&tok[i])); continue; }
                    if old[i].as_ref() == model[i].as_ref().map(|m| &m.0) {
                        chk!(!r.contains_key(&tok[i]));
                        model[i] = x;
                    } else {
                        chk!(r.get(&tok[i]) == model[i].as_ref().map(|m| &m.0));
                        cnt += 1;
                        mark(3);
                    }
                }
                chk!(r.len() == cnt);
            }
        }
    }
    let mut ask = HashSet::new();
    let mut exp = 0;
    for i in 0..nt { if flip() { ask.insert(tok[i]); exp += model[i].is_some() as usize; } }
    ask.insert(Token::from([9; 32]));
    let r = block_on(e.get(ask.clone()));
    chk!(r.is_ok());
    let r = r.unwrap();
    chk!(r.len() == exp);
    for i in 0..nt {
        if !ask.contains(&tok[i]) { continue; }
        let got: Vec<_> = r.iter().filter(|x| x.0 == tok[i]).collect();
        match &model[i] {
            None => chk!(got.is_empty()),
            Some((v, p)) => {
                chk!(got.len() == 1);
                chk!(got[0].1 == *v);
                let d = e.resolve(&k1, &got[0].1);
                chk!(d.is_ok());
                chk!(eq(&d.unwrap(), p));
                chk!(e.resolve(&k2, &got[0].1).is_err());
            }
        }
    }
    observe(exp as u64);
    mark(0);
}
/// C04. table: 0 entry, 1 chain.
pub fn edx(n: u64, nt: u64, table: u64, order: u64) {
    order_mode(order);
    let ctl = new_ctl();
    if table == 0 {
        let e: EntryTable<5, Db<5>> = EntryTable::setup(Db::new(0, &ctl));
        dx(&e, n, nt as usize, true);
    } else {
        let e: ChainTable<7, Db<7>> = ChainTable::setup(Db::new(1, &ctl));
        dx(&e, n, nt as usize, false);
    }
}
/// C04: the failures of the database are reported by the dictionaries.
pub fn edx_fault(table: u64, _: u64, _: u64, _: u64) {
    order_mode(0);
    let ctl = new_ctl();
    fn go<const N: usize, E: DxEnc<N, EncryptedValue = EncryptedValue<N>>>(e: &E, ctl: &Shared, upserts: bool) {
        let mut rng = CsRng::from_seed([5; 32]);
        let k = e.derive_keys(&e.gen_seed(&mut rng));
        let t = e.tokenize(&k, &[byte(); 32], None);
        let v = e.prepare(&mut rng, &k, [byte(); N]).unwrap();
        ctl.arm(if flip() { Fault::Before } else { Fault::After }, 0);
        let bad = match pick(3 + upserts as u64) {
            0 => block_on(e.insert(HashMap::from_iter([(t, v)]))).is_err(),
            1 => block_on(e.delete(HashSet::from_iter([t]))).is_err(),
            2 => block_on(e.get(HashSet::from_iter([t]))).is_err(),
            _ => block_on(e.upsert(HashMap::new(), HashMap::from_iter([(t, v)]))).is_err(),
        };
        chk!(ctl.c().fired);
        chk!(bad);
        mark(0);
        observe(ctl.c().at.1 as u64);
    }
    if table == 0 {
        let e: EntryTable<5, Db<5>> = EntryTable::setup(Db::new(0, &ctl));
        go(&e, &ctl, true);
    } else {
        let e: ChainTable<7, Db<7>> = ChainTable::setup(Db::new(1, &ctl));
        go(&e, &ctl, false);
    }
}

/// C27: text, of up to `n` bytes, is its UTF-8 encoding.
pub fn text(n: u64, _: u64, _: u64, _: u64) {
    order_mode(0);
    let a = bytes(pick(n + 1) as usize);
    let Ok(t) = std::str::from_utf8(&a) else { return mark(0) };
    chk!(eq(&Keyword::from(t), &a) && eq(&Data::from(t), &a) && eq(&Label::from(t), &a));
    let t: &'static str = Box::leak(t.to_string().into_boxed_str());
    let k = Keywords::from_iter([t, t]);
    chk!(k.len() == 1 && k.contains(&Keyword::from(a.clone())));
    // labels drawn at random
    let mut rng = CsRng::from_seed([9; 32]);
    let (l, m) = (Label::random(&mut rng), Label::random(&mut rng));
    chk!(l.len() == 32 && m.len() == 32 && l != m);
    mark(1);
    observe(a.len() as u64);
}

/// C27: conversions between bytes and the public types, for any bytes.
pub fn conv(n: u64, _: u64, _: u64, _: u64) {
    order_mode(2);
    let (a, b) = (bytes(pick(n + 1) as usize), bytes(pick(n + 1) as usize));
    let same = eq(&a, &b);
    macro_rules! both {
        ($t:ty) => {{
            let (x, y) = (<$t>::from(a.clone()), <$t>::from(&b[..]));
            chk!((x == y) == same);
            chk!(eq(&x, &a) && eq(y.as_ref(), &b));
            chk!(eq(&Vec::<u8>::from(x), &a));
            let mut z = y.clone();
            chk!(z == y);
            if b.len() > 0 { let m = byte(); z[0] ^= m; chk!((z == y) == (m == 0)); }
        }};
    }
    both!(Keyword);
    both!(Data);
    both!(Label);
    // sets of keywords
    let (ka, kb) = (Keyword::from(a.clone()), Keyword::from(b.clone()));
    let s = Keywords::from_iter([ka.clone(), kb.clone()]);
    chk!(s.len() == 2 - same as usize && s.contains(&ka) && s.contains(&kb));
    let h: HashSet<Keyword> = s.clone().into();
    chk!(h.len() == s.len() && h.contains(&ka) && h.contains(&kb));
    chk!(Keywords::from(h) == s);
    chk!(s.clone().into_iter().count() == s.len() && s.clone().into_iter().all(|k| k == ka || k == kb));
    let t = Keywords::from_iter(["x", "y", "x"]);
    chk!(t.len() == 2 && t.contains(&Keyword::from("x")) && t.contains(&Keyword::from("y")));
    // indexed values
    let (p, d) = (Iv::Pointer(ka.clone()), Iv::Data(Data::from(a.clone())));
    chk!(p != d && p.is_pointer() && !d.is_pointer());
    chk!(p.get_pointer() == Some(&ka) && p.get_data().is_none());
    chk!(d.get_data() == Some(&Data::from(a.clone())) && d.get_pointer().is_none());
    // maps
    let q = Iv::Pointer(kb.clone());
    let ok = |m: &IndexedValueToKeywordsMap| {
        chk!(m.len() == 2);
        let x = m.get(&d);
        chk!(x.is_some() && x.unwrap().len() == s.len() && x.unwrap().contains(&ka) && x.unwrap().contains(&kb));
        let x = m.get(&q);
        chk!(x.is_some() && x.unwrap().len() == 1 && x.unwrap().contains(&ka));
    };
    let only = Keywords::from_iter([ka.clone()]);
    let pairs = || vec![(d.clone(), s.clone()), (q.clone(), only.clone())];
    ok(&IndexedValueToKeywordsMap::from_iter(pairs()));
    ok(&IndexedValueToKeywordsMap::from([(d.clone(), s.clone()), (q.clone(), only.clone())]));
    ok(&IndexedValueToKeywordsMap::from(HashMap::<Iv, Keywords>::from_iter(pairs())));
    ok(&IndexedValueToKeywordsMap::from_iter(pairs().into_iter().map(|(v, k)| (v, HashSet::<Keyword>::from(k)))));
    ok(&IndexedValueToKeywordsMap::from(HashMap::<Iv, HashSet<Keyword>>::from_iter(pairs().into_iter().map(|(v, k)| (v, k.into())))));
    chk!(IndexedValueToKeywordsMap::from_iter(pairs()).into_iter().count() == 2);
    let da = HashSet::from_iter([Data::from(a.clone()), Data::from(b.clone())]);
    let r = KeywordToDataMap::from_iter([(ka.clone(), da.clone())]);
    chk!(r.len() == 1 && r.get(&ka) == Some(&da) && r.contains_key(&kb) == same);
    let h: HashMap<Keyword, HashSet<Data>> = r.into();
    chk!(h.len() == 1 && h.get(&ka) == Some(&da));
    let r = KeywordToDataMap::from(h);
    chk!(r.len() == 1 && r.get(&ka) == Some(&da));
    chk!(r.into_iter().all(|(k, v)| k == ka && v == da));
    // and empty ones
    let none = || vec![(ka.clone(), HashSet::new()), (Keyword::from("none"), HashSet::new())];
    let is = |r: &HashMap<Keyword, HashSet<Data>>| {
        for (k, v) in none() { chk!(r.get(&k) == Some(&v)); }
        chk!(r.len() == 2 - (a == b"none") as usize);
    };
    let r = KeywordToDataMap::from(HashMap::<Keyword, HashSet<Data>>::from_iter(none()));
    is(&r);
    is(&r.clone().into());
    is(&r.into_iter().collect());
    let r = KeywordToDataMap::from_iter(none());
    is(&r);
    is(&r.into());
    chk!(KeywordToDataMap::from(HashMap::new()).is_empty() && Keywords::from(HashSet::new()).is_empty() && Tokens::from(HashSet::new()).is_empty());
    let pairs = || vec![(d.clone(), Keywords::default()), (q.clone(), Keywords::default())];
    let is = |m: &IndexedValueToKeywordsMap| chk!(m.len() == 2 && m.get(&d).map(|x| x.is_empty()) == Some(true) && m.get(&q).map(|x| x.is_empty()) == Some(true));
    is(&IndexedValueToKeywordsMap::from_iter(pairs()));
    is(&IndexedValueToKeywordsMap::from(HashMap::<Iv, Keywords>::from_iter(pairs())));
    is(&IndexedValueToKeywordsMap::from_iter(pairs().into_iter().map(|(v, k)| (v, HashSet::<Keyword>::from(k)))));
    // tokens and lines
    let (t1, t2) = (Token::from([byte(); 32]), Token::from([byte(); 32]));
    let st = Tokens::from_iter([t1, t2]);
    chk!(st.len() == 2 - (t1 == t2) as usize && st.contains(&t1) && st.contains(&t2));
    let h: HashSet<Token> = st.clone().into();
    chk!(h.len() == st.len() && Tokens::from(h) == st && st.clone().into_iter().all(|t| t == t1 || t == t2));
    let v = |x: u8| EncryptedValue::<1> { ciphertext: [x], tag: [x ^ 1; 16], nonce: cosmian_crypto_core::Nonce([x ^ 2; 12]) };
    let m = TokenToEncryptedValueMap::from_iter([(t1, v(1)), (t2, v(2))]);
    chk!(m.len() == st.len() && m.get(&t2) == Some(&v(2)) && (t1 == t2 || m.get(&t1) == Some(&v(1))));
    let h: HashMap<Token, EncryptedValue<1>> = m.clone().into();
    chk!(h.len() == m.len() && TokenToEncryptedValueMap::from(h) == m);
    chk!(m.clone().into_iter().all(|(t, x)| m.get(&t) == Some(&x)));
    let l = TokenWithEncryptedValueList::from_iter([(t1, v(1)), (t2, v(2)), (t1, v(1))]);
    chk!(l.len() == 3 && l[0] == (t1, v(1)) && l[1] == (t2, v(2)) && l[2] == (t1, v(1)));
    let l: Vec<(Token, EncryptedValue<1>)> = l.into();
    chk!(l.len() == 3 && l[0] == (t1, v(1)) && l[1] == (t2, v(2)));
    chk!(TokenWithEncryptedValueList::from(l).into_iter().map(|x| x.0).eq([t1, t2, t1]));
    // a random label is made of 32 fresh bytes
    let mut rng = CsRng::from_seed([6; 32]);
    let (l1, l2) = (Label::random(&mut rng), Label::random(&mut rng));
    chk!(l1.len() == 32 && l2.len() == 32 && l1 != l2);
    let _ = rng.next_u32();
    mark(same as u64);
    observe(a.len() as u64 * 10 + b.len() as u64);
}

/// C03, C20: deep and wide graphs. shape 0: a chain of `n` keywords; 1: a
/// keyword which points to `n` others; 2: a ladder (two keywords at each level,
/// both pointing to the two next ones); 3: `n` keywords which point to the
/// same one, all searched; 4: a ring. `far`: where the search starts, or stops.
pub fn shape(n: u64, shape: u64, far: u64, order: u64) {
    order_mode(order);
    let w = World::new();
    let name = |i: u64| Keyword::from(vec![b'n', (i / 200) as u8, (i % 200) as u8]);
    let val = |i: u64| vec![(i / 200) as u8, (i % 200) as u8];
    let mut edges: Vec<(u64, u64)> = Vec::new();
    for i in 0..n {
        match shape {
            0 => if i + 1 < n { edges.push((i, i + 1)); },
            1 => if i > 0 { edges.push((0, i)); },
            2 => for j in [i / 2 * 2 + 2, i / 2 * 2 + 3] { if j < n { edges.push((i, j)); } },
            3 => if i + 1 < n { edges.push((i, n - 1)); },
            _ => edges.push((i, (i + 1) % n)),
        }
    }
    let mut all: Vec<(Iv, Keyword)> = (0..n).map(|i| (Iv::Data(Data::from(val(i))), name(i))).collect();
    all.extend(edges.iter().map(|(i, j)| (Iv::Pointer(name(*j)), name(*i))));
    chk!(w.add(group(all)).is_ok());
    let from = if far == 1 { pick(n) } else { pick(2.min(n)) };
    let roots: Vec<u64> = if shape == 3 { (0..n).collect() } else { vec![from] };
    let q: Vec<Keyword> = roots.iter().map(|i| name(*i)).collect();
    let r = w.search(&q);
    chk!(r.is_ok());
    let r = r.unwrap();
    chk!(r.len() == roots.len());
    for root in roots {
        let f = r.get(&name(root));
        chk!(f.is_some());
        let f = f.unwrap();
        let mut reach = vec![false; n as usize];
        let mut todo = vec![root];
        let mut cnt = 0;
        while let Some(i) = todo.pop() {
            if reach[i as usize] { continue; }
            reach[i as usize] = true;
            cnt += 1;
            chk!(f.contains(&Data::from(val(i))));
            for (a, b) in &edges { if *a == i { todo.push(*b); } }
        }
        chk!(f.len() == cnt);
    }
    mark(0);
    observe(from);
}

/// C28: the database fails at any call of a search, through `n` levels of
/// pointers: the search fails, and the next one does not.
pub fn search_fault(n: u64, len: u64, order: u64, _: u64) {
    order_mode(order);
    let w = World::new();
    let val = |i: u64| { let mut v = vec![0x44; len as usize]; v[0] = i as u8; Iv::Data(Data::from(v)) };
    let mut all = Vec::new();
    for i in 0..n {
        all.push((val(i), kw(i as u8)));
        if i + 1 < n { all.push((Iv::Pointer(kw(i as u8 + 1)), kw(i as u8))); }
    }
    chk!(w.add(group(all)).is_ok());
    let after = flip();
    let at = pick(2 * n + 2);
    // a keyword which is indexed, or not; alone or not
    let q = if flip() { vec![kw(0)] } else { vec![kw(0), kw(byte())] };
    let keys = || Keywords::from_iter(q.iter().cloned());
    w.ctl.arm(if after { Fault::After } else { Fault::Before }, at);
    w.ctl.reset_count();
    let r = block_on(w.ix.search(&w.key, &w.label, keys(), &|_| async { Ok(false) }));
    let fired = w.ctl.c().fired;
    w.ctl.disarm();
    chk!(matches!(r, Err(Error::DbInterface(_))) == fired);
    chk!(r.is_ok() != fired);
    if fired { mark(1); } else { mark(0); }
    chk!(w.ctl.writes() == 0);
    let f = block_on(w.ix.search(&w.key, &w.label, keys(), &|_| async { Ok(false) }));
    chk!(f.is_ok());
    chk!(f.unwrap().get(&kw(0)).map(|f| f.len()) == Some(n as usize));
    observe(fired as u64);
}
