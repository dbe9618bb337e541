//! Several clients, failures and crashes.
use crate::api::*;
use crate::db::*;
use crate::world::*;
use cosmian_findex::*;
use std::future::Future;
use std::pin::Pin;
use std::task::Poll;
const FILE: u64 = 3;

/// Runs the clients to their ends: at each step, the client which makes its
/// next database call is chosen symbolically.
fn schedule<T>(mut fs: Vec<Pin<Box<dyn Future<Output = T> + '_>>>) -> Vec<T> {
    let n = fs.len();
    let mut out: Vec<Option<T>> = (0..n).map(|_| None).collect();
    // up to their first calls, the clients do not interact
    for i in 0..n { if let Poll::Ready(x) = poll(&mut fs[i]) { out[i] = Some(x); } }
    loop {
        let ready: Vec<usize> = (0..n).filter(|i| out[*i].is_none()).collect();
        if ready.is_empty() { break; }
        let i = ready[pick(ready.len() as u64) as usize];
        if let Poll::Ready(x) = poll(&mut fs[i]) { out[i] = Some(x); }
    }
    out.into_iter().map(|x| x.unwrap()).collect()
}
/// The results of executing `ops` in some order, after `base`.
fn serial(found: &[Vec<u8>], base: &[Op], ops: &[Op], k: u8) -> bool {
    fn go(found: &[Vec<u8>], done: &mut Vec<Op>, left: &mut Vec<Op>, k: u8) -> bool {
        if left.is_empty() { return exact(found, done, k); }
        let mut r = false;
        for i in 0..left.len() {
            let o = left.remove(i);
            done.push(o);
            r |= go(found, done, left, k);
            done.pop();
            left.insert(i, o);
        }
        r
    }
    go(found, &mut base.to_vec(), &mut ops.to_vec(), k)
}

/// C11: `n` concurrent clients, one symbolic operation each (additions only
/// if `adds` is odd, the tens of which lengthen the values), on an index which holds `base` associations.
pub fn writers(n: u64, base: u64, adds: u64, keys: u64) {
    order_mode(0);
    let (long, adds) = (adds / 10 * 40, adds % 10);
    let val = |d: u8| -> Data { let mut v = vec![0x61; 1 + long as usize]; v[0] = d; Data::from(v) };
    let short = |f: Vec<Vec<u8>>| -> Vec<Vec<u8>> {
        for x in &f { chk!(x.len() as u64 == 1 + long && x[1..].iter().all(|b| *b == 0x61)); }
        f.iter().map(|x| vec![x[0]]).collect()
    };
    let w = World::new();
    let mut b = Vec::new();
    for i in 0..base {
        let o = Op { add: true, k: 1, d: 100 + i as u8 };
        chk!(w.add(one(Iv::Data(val(o.d)), kw(o.k))).is_ok());
        b.push(o);
    }
    let mut ops = Vec::new();
    for i in 0..n {
        // keywords 1 (already indexed) to `keys`; the first client uses 1
        let k = if i == 0 { 1 + (keys % 16 > 8) as u8 } else { 1 + pick(keys % 8) as u8 };
        let add = adds == 1 || flip();
        let d = if adds == 1 { i as u8 } else { 100 + pick(2) as u8 };
        ops.push(Op { add, k, d });
    }
    // several clients, or one (`keys` from 16 on) used by several tasks
    let clients: Vec<Ix> = (0..n).map(|_| w.client()).collect();
    let shared = keys >= 16;
    w.ctl.c().yields = true;
    let fs: Vec<Pin<Box<dyn Future<Output = Result<Keywords, Error<DbErr>>>>>> = ops.iter().zip(&clients).map(|(o, c)| {
        let c = if shared { &w.ix } else { c };
        let f: Pin<Box<dyn Future<Output = Result<Keywords, Error<DbErr>>>>> = if o.add {
            Box::pin(c.add(&w.key, &w.label, one(Iv::Data(val(o.d)), kw(o.k))))
        } else {
            Box::pin(c.delete(&w.key, &w.label, one(Iv::Data(val(o.d)), kw(o.k))))
        };
        f
    }).collect();
    let rs = schedule(fs);
    w.ctl.c().yields = false;
    let mut total = 0u64;
    for k in 1..=3u8 {
        let f = w.find(&kw(k));
        chk!(f.is_some());
        let f = short(f.unwrap());
        chk!(serial(&f, &b, &ops, k));
        // the keyword is reported as new by exactly one of its clients, if it is new
        let mut news = 0;
        for r in &rs {
            chk!(r.is_ok());
            if r.as_ref().unwrap().contains(&kw(k)) { news += 1; }
        }
        let known = b.iter().any(|o| o.k == k);
        let used = ops.iter().any(|o| o.k == k);
        chk!(news == (used && !known) as u64);
        if adds == 1 { total += f.len() as u64; }
    }
    // one line per operation, one entry per keyword
    let (e, c) = w.snap();
    let lines = ((2 + long as usize) / BLOCK_LENGTH + LINE_WIDTH) / LINE_WIDTH;
    chk!(c.len() == (base + n) as usize * lines);
    let mut names: Vec<u8> = Vec::new();
    for o in b.iter().chain(&ops) { if !names.contains(&o.k) { names.push(o.k); } }
    chk!(e.len() == names.len());
    observe(total);
    mark(0);
    if w.ctl.c().count[0][UPSERT as usize] > base + n { mark(1); }
}

/// C11: two clients which modify several keywords in one call, in common or not.
pub fn batches(base: u64, second: u64, shared: u64, _: u64) {
    order_mode(2);
    let w = World::new();
    let mut b = Vec::new();
    if base == 1 { let o = Op { add: true, k: 1, d: 100 }; chk!(apply(&w, &o).is_ok()); b.push(o); }
    // keywords of the two clients: {1, 2} and a symbolic pair
    let (x, y) = (1 + pick(3) as u8, 1 + pick(3) as u8);
    let add2 = second == 0 || flip();
    let o1 = vec![Op { add: true, k: 1, d: 1 }, Op { add: true, k: 2, d: 1 }, Op { add: true, k: 2, d: 2 }];
    let o2 = vec![Op { add: add2, k: x, d: 1 }, Op { add: add2, k: y, d: 3 }];
    let (x1, x2) = (w.client(), w.client());
    let (c1, c2) = if shared == 1 { (&w.ix, &w.ix) } else { (&x1, &x2) };
    let m = |o: &[Op]| group(o.iter().map(|o| (Iv::Data(dat(o.d)), kw(o.k))).collect());
    w.ctl.c().yields = true;
    let f1: Pin<Box<dyn Future<Output = Result<Keywords, Error<DbErr>>>>> = Box::pin(c1.add(&w.key, &w.label, m(&o1)));
    let f2: Pin<Box<dyn Future<Output = Result<Keywords, Error<DbErr>>>>> = if add2 { Box::pin(c2.add(&w.key, &w.label, m(&o2))) } else { Box::pin(c2.delete(&w.key, &w.label, m(&o2))) };
    let rs = schedule(vec![f1, f2]);
    w.ctl.c().yields = false;
    for r in &rs { chk!(r.is_ok()); }
    for k in 1..=3u8 {
        let f = w.find(&kw(k));
        chk!(f.is_some());
        let f = f.unwrap();
        let mut ab = b.clone();
        ab.extend(o1.iter().copied());
        ab.extend(o2.iter().copied());
        let mut ba = b.clone();
        ba.extend(o2.iter().copied());
        ba.extend(o1.iter().copied());
        chk!(exact(&f, &ab, k) | exact(&f, &ba, k));
        let news: usize = rs.iter().filter(|r| r.as_ref().unwrap().contains(&kw(k))).count();
        let known = b.iter().any(|o| o.k == k);
        let used = o1.iter().chain(&o2).any(|o| o.k == k);
        chk!(news == (used && !known) as usize);
    }
    mark(0);
    if w.ctl.c().count[0][UPSERT as usize] > 2 + base { mark(1); }
}

/// C12: a search concurrent with writers. `len` is the length of the values.
pub fn reader(writers: u64, del: u64, len: u64, levels: u64) {
    let (del, shared) = (del % 2, del >= 2);
    order_mode(0);
    let w = World::new();
    let val = |i: u8| -> Vec<u8> { let mut v = vec![0x41; len as usize]; v[0] = i; v };
    let put = |i: u8| one(Iv::Data(Data::from(val(i))), kw(1));
    chk!(w.add(put(50)).is_ok());
    chk!(w.add(put(51)).is_ok());
    if levels > 1 { chk!(w.add(one(Iv::Pointer(kw(1)), kw(2))).is_ok()); }
    let clients: Vec<Ix> = (0..writers).map(|_| w.client()).collect();
    // the reader may share its client with a writer
    let reader = w.client();
    enum Out { W(bool), R(Result<KeywordToDataMap, Error<DbErr>>) }
    w.ctl.c().yields = true;
    let root = if levels > 1 { kw(2) } else { kw(1) };
    let mut fs: Vec<Pin<Box<dyn Future<Output = Out>>>> = Vec::new();
    let (key, label) = (&w.key, &w.label);
    for (i, c) in clients.iter().enumerate() {
        let m = if del == 1 && i == 0 { put(51) } else { put(i as u8) };
        let d = del == 1 && i == 0;
        fs.push(Box::pin(async move { Out::W(if d { c.delete(key, label, m).await.is_ok() } else { c.add(key, label, m).await.is_ok() }) }));
    }
    let rk = Keywords::from_iter([root.clone()]);
    let rd = if shared { &clients[0] } else { &reader };
    fs.push(Box::pin(async move { Out::R(rd.search(key, label, rk, &|_| async { Ok(false) }).await) }));
    let out = schedule(fs);
    w.ctl.c().yields = false;
    let fin = w.find(&root);
    chk!(fin.is_some());
    let fin = fin.unwrap();
    for o in out {
        match o {
            Out::W(ok) => chk!(ok),
            Out::R(r) => {
                chk!(r.is_ok());
                let r = r.unwrap();
                chk!(r.len() == 1);
                let f = list(r.get(&root).unwrap());
                chk!(has(&f, &val(50)));
                if del != 1 { chk!(has(&f, &val(51))); }
                // only values which were written, in full
                for x in &f { chk!(has(&fin, x) | (del == 1 && eq(x, &val(51)))); }
                if f.len() == fin.len() { mark(0); } else { mark(1); }
            }
        }
    }
    // the reader finds it all afterwards
    let r = block_on(rd.search(key, label, Keywords::from_iter([root.clone()]), &|_| async { Ok(false) }));
    chk!(r.is_ok());
    let r = r.unwrap().get(&root).map(list);
    chk!(r.is_some());
    let r = r.unwrap();
    chk!(r.len() == fin.len());
    for x in &fin { chk!(has(&r, x)); }
    // the writers are not disturbed by the reader
    for i in 0..writers { if !(del == 1 && i == 0) { chk!(has(&fin, &val(i as u8))); } }
    chk!(has(&fin, &val(50)));
    chk!(has(&fin, &val(51)) == (del != 1));
    chk!(fin.len() as u64 == 2 + writers - if del == 1 { 2 } else { 0 });
    observe(fin.len() as u64);
}

/// C10: the database fails, or the client stops, at any call of an addition or
/// of a deletion. `len`: length of the values.
pub fn fault(f: u64, len: u64, base: u64, _: u64) {
    order_mode(2);
    let w = World::new();
    let val = |i: u8| -> Vec<u8> { let mut v = vec![0x41; len as usize]; v[0] = i; v };
    let put = |d: u8, k: u8| one(Iv::Data(Data::from(val(d))), kw(k));
    for i in 0..base {
        chk!(w.add(put(i as u8, 1)).is_ok());
        chk!(w.add(put(i as u8, 2)).is_ok());
    }
    for q in [1u8, 9] { chk!(w.find(&kw(q)).is_some()); }
    // one call on two keywords, one of which may be new
    let k = 1 + pick(3) as u8;
    let add = flip();
    let d = if add { 90 } else { 0 };
    let m = || group(vec![(Iv::Data(Data::from(val(d))), kw(k)), (Iv::Data(Data::from(val(d))), kw(9))]);
    let at = pick(7);
    w.ctl.arm([Fault::Before, Fault::After, Fault::CrashBefore, Fault::CrashAfter][f as usize], at);
    let r = if add { run(&w.ctl, w.ix.add(&w.key, &w.label, m())) } else { run(&w.ctl, w.ix.delete(&w.key, &w.label, m())) };
    let fired = w.ctl.c().fired;
    let (table, kind) = w.ctl.c().at;
    w.ctl.disarm();
    let check = |applied: Option<bool>| {
        for q in [1u8, 2, 3, 9] {
            let f = w.find(&kw(q));
            chk!(f.is_some());
            let f = f.unwrap();
            let hit = q == k || q == 9;
            let mut cnt = 0;
            for i in 0..base {
                let had = q <= 2;
                let is = has(&f, &val(i as u8));
                if hit && d == i as u8 {
                    match applied { Some(true) => chk!(is == (add || false)), Some(false) => chk!(is == had), None => chk!(is <= had) }
                } else { chk!(is == had); }
                cnt += is as usize;
            }
            if add {
                let is = has(&f, &val(90));
                match applied { Some(x) => chk!(is == (x && hit)), None => chk!(is <= hit) }
                cnt += is as usize;
            }
            // nothing but what was written
            chk!(f.len() == cnt);
        }
    };
    if !fired {
        chk!(matches!(r, Some(Ok(_))));
        check(Some(true));
        mark(0);
        return;
    }
    if f < 2 { chk!(matches!(r, Some(Err(Error::DbInterface(_))))); }
    // the operation as a whole takes effect when the links are inserted
    check(Some(table == 1 && kind == INSERT && (f == 1 || f == 3)));
    mark(1);
    // it can be tried again, and the index goes on working
    let r = if add { w.add(m()) } else { w.delete(m()) };
    chk!(r.is_ok());
    check(Some(true));
    let k2 = w.ix.keygen();
    chk!(w.compact(&k2, &w.label, 1.0).is_ok());
    let g = w.find_as(&k2, &w.label, &kw(2));
    chk!(g.is_some());
    for i in 0..base { if !(k == 2 && !add && i == 0) { chk!(has(g.as_ref().unwrap(), &val(i as u8))); } }
    observe(kind as u64 + 10 * table as u64);
}

/// C10: a client stops in the middle of an addition while others go on.
pub fn dead(n: u64, _: u64, _: u64, _: u64) {
    order_mode(0);
    let w = World::new();
    chk!(w.add(d1(100, 1)).is_ok());
    let clients: Vec<Ix> = (0..n).map(|_| w.client()).collect();
    w.ctl.c().yields = true;
    let mut fs: Vec<Pin<Box<dyn Future<Output = Result<Keywords, Error<DbErr>>>>>> = Vec::new();
    for (i, c) in clients.iter().enumerate() { fs.push(Box::pin(c.add(&w.key, &w.label, d1(i as u8, 1 + (i as u8 % 2) * (i as u8 / 2))))); }
    // the first client makes at most `stop` calls
    let stop = pick(4);
    let mut left = stop;
    let mut done = vec![false; n as usize];
    for i in 0..n as usize { let _ = poll(&mut fs[i]); }
    loop {
        let ready: Vec<usize> = (0..n as usize).filter(|i| !done[*i] && (*i != 0 || left > 0)).collect();
        if ready.is_empty() { break; }
        let i = ready[pick(ready.len() as u64) as usize];
        if i == 0 { left -= 1; }
        if let Poll::Ready(r) = poll(&mut fs[i]) { chk!(r.is_ok()); done[i] = true; }
    }
    let finished = done[0];
    drop(fs);
    w.ctl.c().yields = false;
    let mut all = w.find(&kw(1));
    chk!(all.is_some());
    let f = all.take().unwrap();
    chk!(has(&f, &[100]));
    for i in 1..n { if 1 + (i % 2) * (i / 2) == 1 { chk!(has(&f, &[i as u8])); } }
    if finished { chk!(has(&f, &[0])); mark(0); } else { chk!(!has(&f, &[0]) | (stop >= 3)); mark(1); }
    chk!(w.add(d1(101, 1)).is_ok());
    let f = w.find(&kw(1));
    chk!(f.is_some());
    chk!(has(&f.unwrap(), &[101]));
    observe(finished as u64);
}

/// C11: a client is overtaken at each of its attempts, up to `n` times: just
/// before it updates an entry, another client updates it. pair: 1 and 2, it
/// updates two entries; the other client updates one, or both in turn.
pub fn starve(n: u64, base: u64, pair: u64, _: u64) {
    order_mode(0);
    let w = World::new();
    let own = |k: u8| Iv::Data(Data::from(vec![255, k]));
    if base == 1 { chk!(w.add(one(own(1), kw(1))).is_ok()); }
    let (c1, c2) = (w.client(), w.client());
    let times = some_index(n + 1);
    let add = flip();
    let m = if pair > 0 { group(vec![(own(1), kw(1)), (own(2), kw(2))]) } else { one(own(1), kw(1)) };
    w.ctl.c().yields = true;
    let mut f: Pin<Box<dyn Future<Output = Result<Keywords, Error<DbErr>>>>> = if add { Box::pin(c1.add(&w.key, &w.label, m)) } else { Box::pin(c1.delete(&w.key, &w.label, m)) };
    let mut fresh = 0;
    let mut made = 0;
    let r = loop {
        if made < times {
            // as long as it has to update entries, someone else does it first
            w.ctl.c().yields = false;
            let k = if pair == 2 { 1 + (made % 2) as u8 } else { 1 };
            let r = block_on(c2.add(&w.key, &w.label, one(Iv::Data(Data::from(id(made))), kw(k))));
            chk!(r.is_ok());
            fresh += r.unwrap().len();
            made += 1;
            w.ctl.c().yields = true;
        }
        if let Poll::Ready(r) = poll(&mut f) { break r; }
    };
    w.ctl.c().yields = false;
    chk!(r.is_ok());
    let r = r.unwrap();
    // each keyword is new for one client
    for k in 1..=2u8 {
        let f = w.find(&kw(k));
        chk!(f.is_some());
        let f = f.unwrap();
        let mut exp: Vec<Vec<u8>> = (0..made).filter(|i| k == if pair == 2 { 1 + (i % 2) as u8 } else { 1 }).map(id).collect();
        if k == 1 && add { exp.push(vec![255, 1]); }
        if k == 2 && add && pair > 0 { exp.push(vec![255, 2]); }
        chk!(f.len() == exp.len());
        for x in &exp { chk!(has(&f, x)); }
    }
    fresh += r.len();
    let e = w.snap().0;
    chk!(fresh == e.len() - base as usize);
    observe(made);
    mark(if made == times { 0 } else { 1 });
}

/// C10: a client is overtaken up to `n` times, and the database fails, or this
/// client stops, at any of its calls (see `fault`).
pub fn overtaken(n: u64, base: u64, fault: u64, _: u64) {
    order_mode(0);
    let w = World::new();
    if base == 1 { chk!(w.add(d1(100, 1)).is_ok()); }
    let (c1, c2) = (w.client(), w.client());
    let times = pick(n + 1);
    let add = flip();
    let (d, k) = (if add { 90 } else { 100 }, 1 + pick(2) as u8);
    let m = group(vec![(Iv::Data(dat(d)), kw(k)), (Iv::Data(dat(d)), kw(3))]);
    let at = pick(2 * n + 3);
    w.ctl.arm([Fault::Before, Fault::After, Fault::CrashBefore, Fault::CrashAfter][fault as usize], at);
    w.ctl.c().yields = true;
    let mut f: Pin<Box<dyn Future<Output = Result<Keywords, Error<DbErr>>>>> = if add { Box::pin(c1.add(&w.key, &w.label, m)) } else { Box::pin(c1.delete(&w.key, &w.label, m)) };
    let mut made = 0;
    let r = loop {
        if made < times {
            let c = w.ctl.c();
            let (calls, fault) = (c.calls, c.fault);
            c.yields = false;
            c.fault = Fault::None;
            chk!(block_on(c2.add(&w.key, &w.label, d1(made as u8, k))).is_ok());
            made += 1;
            let c = w.ctl.c();
            c.calls = calls;
            c.fault = fault;
            c.yields = true;
        }
        if let Poll::Ready(r) = poll(&mut f) { break Some(r); }
        if w.ctl.c().fired && fault >= 2 { break None; }
    };
    drop(f);
    let (fired, (table, _)) = (w.ctl.c().fired, w.ctl.c().at);
    w.ctl.disarm();
    w.ctl.c().yields = false;
    if !fired { chk!(matches!(r, Some(Ok(_)))); } else if fault < 2 { chk!(matches!(r, Some(Err(Error::DbInterface(_))))); }
    let done = !fired || (table == 1 && (fault == 1 || fault == 3));
    let check = |key: &UserKey, done: bool| {
        for q in 1..=3u8 {
            let f = w.find_as(key, &w.label, &kw(q));
            chk!(f.is_some());
            let f = f.unwrap();
            let hit = q == k || q == 3;
            let had = q == 1 && base == 1;
            let mut exp: Vec<u8> = if q == k { (0..made as u8).collect() } else { vec![] };
            if had && !(done && !add && hit) { exp.push(100); }
            if add && done && hit { exp.push(90); }
            chk!(f.len() == exp.len());
            for x in &exp { chk!(has(&f, &[*x])); }
        }
    };
    check(&w.key, done);
    // what is left does not prevent anything
    let m = group(vec![(Iv::Data(dat(d)), kw(k)), (Iv::Data(dat(d)), kw(3))]);
    chk!(w.op(add, m).is_ok());
    check(&w.key, true);
    let k2 = w.ix.keygen();
    chk!(w.compact(&k2, &w.label, 1.0).is_ok());
    check(&k2, true);
    mark(fired as u64);
    observe(made * 10 + table as u64);
}
