//! The properties on many keywords, values, lines or clients at once: what an
//! implementation may treat by pages, or beyond a threshold.
use crate::api::*;
use crate::db::*;
use crate::world::*;
use cosmian_crypto_core::bytes_ser_de::{Deserializer, Serializable, Serializer};
use cosmian_findex::*;
use std::cell::RefCell;
use std::collections::{HashMap, HashSet};
use std::future::Future;
use std::pin::Pin;
use std::task::Poll;
const FILE: u64 = 8;

fn name(i: u64) -> Keyword { let v = id(i); Keyword::from(vec![b'k', v[0], v[1]]) }
fn val(i: u64, j: u64) -> Vec<u8> { let (a, b) = (id(i), id(j)); vec![a[0], a[1], b[0], b[1]] }
fn data(i: u64, j: u64) -> Iv { Iv::Data(Data::from(val(i, j))) }
/// The datum `j` of each of the keywords `lo..hi`, in one call.
fn layer(lo: u64, hi: u64, j: u64) -> IndexedValueToKeywordsMap { group((lo..hi).map(|i| (data(i, j), name(i))).collect()) }
/// `n` keywords, which hold `m` lines of one datum each.
fn base(w: &World, n: u64, m: u64) { for j in 0..m { chk!(w.add(layer(0, n, j)).is_ok()); } }
/// The result of one search of all the keywords.
fn all(w: &World, k: &UserKey, l: &Label, n: u64) -> KeywordToDataMap {
    let q: Vec<Keyword> = (0..n).map(name).collect();
    let r = w.search_as(k, l, &q);
    chk!(r.is_ok());
    let r = r.unwrap();
    chk!(r.len() as u64 == n);
    r
}
/// Each keyword holds exactly the data `exp`.
fn are(r: &KeywordToDataMap, n: u64, exp: &dyn Fn(u64) -> Vec<Vec<u8>>) {
    for i in 0..n {
        let f = r.get(&name(i));
        chk!(f.is_some());
        let (f, e) = (f.unwrap(), exp(i));
        chk!(f.len() == e.len());
        for x in &e { chk!(f.contains(&Data::from(x.clone()))); }
    }
}
fn first(m: u64) -> impl Fn(u64) -> Vec<Vec<u8>> { move |i| (0..m).map(|j| val(i, j)).collect() }
fn renewed(w: &World, how: u64) -> (UserKey, Label) {
    (if how == 1 { w.key.clone() } else { w.ix.keygen() }, if how == 0 { w.label.clone() } else { Label::from("new label") })
}

/// C08. full: rate 1, rather than 0.
pub fn renew(n: u64, full: u64, how: u64, order: u64) {
    order_mode(order);
    let w = World::new();
    base(&w, n, 2);
    let (e0, c0) = w.snap();
    let (k2, l2) = renewed(&w, how);
    are(&all(&w, &w.key, &w.label, n), n, &first(2));
    chk!(w.compact(&k2, &l2, if full == 1 { 1.0 } else { 0.0 }).is_ok());
    let (e1, c1) = w.snap();
    chk!(e1.len() == e0.len() && e0.len() as u64 == n);
    let nonces: HashSet<Vec<u8>> = e0.iter().map(|x| x.1.nonce.0.to_vec()).chain(c0.iter().map(|x| x.1.nonce.0.to_vec())).collect();
    for (t, v) in &e1 { chk!(row(&e0, t).is_none()); chk!(!nonces.contains(&v.nonce.0.to_vec())); }
    if full == 1 {
        chk!(c1.len() as u64 == n);
        for (t, v) in &c1 { chk!(row(&c0, t).is_none()); chk!(!nonces.contains(&v.nonce.0.to_vec())); }
    } else { chk!(same_rows(&c0, &c1)); }
    are(&all(&w, &w.key, &w.label, n), n, &|_| vec![]);
    are(&all(&w, &k2, &l2, n), n, &first(2));
    mark(0);
    observe(c1.len() as u64);
}

/// C09: a failure of the database at any call of a compaction.
pub fn fail(n: u64, fault: u64, full: u64, order: u64) {
    order_mode(order);
    let w = World::new();
    base(&w, n, 2);
    let before = w.snap();
    let (k2, l2) = renewed(&w, pick(2));
    let at = pick(8);
    w.ctl.arm([Fault::Before, Fault::After, Fault::CrashBefore, Fault::CrashAfter][fault as usize], at);
    let rate = if full == 1 { 1.0 } else { 0.0 };
    let r = run(&w.ctl, w.ix.compact(&w.key, &k2, &w.label, &l2, rate, &|d| async { Ok(d) }));
    let fired = w.ctl.c().fired;
    let (table, kind) = w.ctl.c().at;
    w.ctl.disarm();
    if !fired {
        chk!(matches!(r, Some(Ok(()))));
        mark(0);
        return;
    }
    mark(1);
    if fault < 2 { chk!(matches!(r, Some(Err(_)))); }
    let moved = kind == DELETE || (kind == INSERT && table == 0 && fault == 3);
    if moved { are(&all(&w, &k2, &l2, n), n, &first(2)); } else { are(&all(&w, &w.key, &w.label, n), n, &first(2)); }
    if fault == 0 && !moved {
        let after = w.snap();
        chk!(same_rows(&before.0, &after.0));
        chk!(same_rows(&before.1, &after.1));
        chk!(w.compact(&k2, &l2, 1.0).is_ok());
        are(&all(&w, &k2, &l2, n), n, &first(2));
        let end = w.snap();
        chk!(end.0.len() as u64 == n && end.1.len() as u64 == n);
    }
    observe(kind as u64 + 10 * table as u64);
}

/// C09: one of the new entries is already there: that of another index.
pub fn collide(n: u64, full: u64, order: u64, _: u64) {
    order_mode(order);
    let w = World::new();
    base(&w, n, 2);
    let k2 = w.ix.keygen();
    let s = some_index(n);
    let other = w.snap();
    chk!(block_on(w.ix.add(&k2, &w.label, one(data(n, 0), name(s)))).is_ok());
    let mine = w.snap();
    // the tables of an index, written by two keys: the other entry is hidden
    // while the first index is compacted
    let hidden: Vec<_> = mine.0.iter().filter(|x| row(&other.0, &x.0).is_none()).cloned().collect();
    chk!(hidden.len() == 1);
    struct Late<'a>(&'a World, Vec<(Token, EncryptedValue<ENTRY_LENGTH>)>);
    let late = Late(&w, hidden);
    block_on(w.et.db.delete(Tokens::from_iter([late.1[0].0]))).unwrap();
    let r = block_on(w.ix.compact(&w.key, &k2, &w.label, &w.label, if full == 1 { 1.0 } else { 0.0 }, &|d| {
        for (t, v) in &late.1 { put_line(&late.0.et.db, *t, v.clone()); }
        async { Ok(d) }
    }));
    chk!(r.is_err());
    let after = w.snap();
    chk!(same_rows(&mine.0, &after.0));
    chk!(same_rows(&mine.1, &after.1));
    are(&all(&w, &w.key, &w.label, n), n, &first(2));
    mark(0);
    observe(s);
}

/// C10, C05: a call on `n` keywords, half of which are new; the database fails.
pub fn fault(n: u64, f: u64, order: u64, _: u64) {
    order_mode(order);
    let w = World::new();
    base(&w, n / 2, 1);
    let add = flip();
    let m = || layer(0, n, if add { 1 } else { 0 });
    let call = || -> Pin<Box<dyn Future<Output = Result<Keywords, Error<DbErr>>> + '_>> {
        if add { Box::pin(w.ix.add(&w.key, &w.label, m())) } else { Box::pin(w.ix.delete(&w.key, &w.label, m())) }
    };
    w.ctl.arm([Fault::Before, Fault::After, Fault::CrashBefore, Fault::CrashAfter][f as usize], pick(7));
    let r = run(&w.ctl, call());
    let fired = w.ctl.c().fired;
    let (table, kind) = w.ctl.c().at;
    w.ctl.disarm();
    let exp = move |applied: bool| move |i: u64| -> Vec<Vec<u8>> {
        let mut v = Vec::new();
        if i < n / 2 && (add || !applied) { v.push(val(i, 0)); }
        if add && applied { v.push(val(i, 1)); }
        v
    };
    let done = !fired || table == 1 && kind == INSERT && (f == 1 || f == 3);
    are(&all(&w, &w.key, &w.label, n), n, &exp(done));
    if fired {
        if f < 2 { chk!(matches!(r, Some(Err(Error::DbInterface(_))))); }
        mark(1);
        let r = block_on(call());
        chk!(r.is_ok());
        are(&all(&w, &w.key, &w.label, n), n, &exp(true));
    } else {
        chk!(matches!(&r, Some(Ok(x)) if x.len() as u64 == n - n / 2));
        mark(0);
    }
    chk!(w.snap().0.len() as u64 == n);
    observe(kind as u64 + 10 * table as u64);
}

/// C24: one call on some of the keywords.
pub fn frame(n: u64, order: u64, _: u64, _: u64) {
    order_mode(order);
    let w = World::new();
    // the entry of each keyword
    let mut tokens: Vec<Token> = Vec::new();
    for i in 0..n {
        chk!(w.add(layer(i, i + 1, 0)).is_ok());
        let e = w.snap().0;
        let mut fresh: Vec<Token> = e.iter().map(|x| x.0).filter(|t| !tokens.contains(t)).collect();
        chk!(fresh.len() == 1);
        tokens.push(fresh.remove(0));
    }
    let (e0, c0) = w.snap();
    let (step, from) = (1 + pick(3), some_index(n));
    let hit = |i: u64| i >= from && (i - from) % step == 0;
    let new = pick(2) * (n / 2);
    let mut v: Vec<(Iv, Keyword)> = (0..n).filter(|i| hit(*i)).map(|i| (data(i, 0), name(i))).collect();
    for i in n..n + new { v.push((data(i, 0), name(i))); }
    let lines = v.len();
    let r = w.op(flip(), group(v));
    chk!(r.is_ok());
    let r = r.unwrap();
    chk!(r.len() as u64 == new);
    for i in n..n + new { chk!(r.contains(&name(i))); }
    let (e1, c1) = w.snap();
    chk!(e1.len() as u64 == n + new);
    for i in 0..n {
        let t = &tokens[i as usize];
        let (a, b) = (row(&e0, t), row(&e1, t));
        chk!(b.is_some());
        chk!((a == b) != hit(i));
    }
    chk!(within(&c0, &c1));
    chk!(c1.len() == c0.len() + lines);
    mark(0);
    observe(lines as u64);
}

/// C16: one of the `n` lines of a chain, or of `n` entries, is altered.
pub fn tamper(n: u64, table: u64, action: u64, order: u64) {
    order_mode(order);
    let w = World::new();
    let (keys, m) = if table == 0 { (n, 1) } else { (1, n) };
    base(&w, keys, m);
    fn alter<const N: usize>(db: &InMemoryDb<N>) -> bool {
        let l = lines(db);
        let (t, v) = l[some_index(l.len() as u64) as usize].clone();
        let mut raw: Vec<u8> = Vec::from(&v);
        let (i, m) = ([0, 11, 12, 12 + N / 2, 11 + N, 12 + N, 27 + N][pick(7) as usize], byte());
        raw[i] ^= m;
        put_line(db, t, EncryptedValue::try_from(&raw[..]).unwrap());
        m != 0
    }
    let changed = if table == 0 { alter(&w.et.db) } else { alter(&w.ct.db) };
    mark(changed as u64);
    let before = w.snap();
    let ok = match action {
        0 => {
            let q: Vec<Keyword> = (0..keys).map(name).collect();
            let r = w.search(&q);
            let ok = r.is_ok();
            if let Ok(r) = &r { are(r, keys, &first(m)); }
            ok
        }
        1 => {
            let r = w.add(layer(0, keys, m));
            // a writer does not read the lines
            chk!(table == 0 || r.is_ok());
            let after = w.snap();
            chk!(within(&before.1, &after.1));
            if r.is_err() { chk!(same_rows(&before.0, &after.0) && same_rows(&before.1, &after.1)); }
            r.is_ok() && (table == 0 || !changed)
        }
        _ => {
            let r = w.compact(&w.ix.keygen(), &w.label, 1.0);
            if r.is_err() { let after = w.snap(); chk!(same_rows(&before.0, &after.0) && same_rows(&before.1, &after.1)); }
            r.is_ok()
        }
    };
    chk!(ok != changed);
    observe(ok as u64);
}

/// C14: four indexes of `n` keywords in the same tables.
pub fn isolate(n: u64, order: u64, _: u64, _: u64) {
    order_mode(order);
    let w = World::new();
    let (k2, l2) = (w.ix.keygen(), Label::from("label2"));
    let who = [(&w.key, &w.label), (&w.key, &l2), (&k2, &w.label), (&k2, &l2)];
    for (x, (k, l)) in who.iter().enumerate() {
        let r = block_on(w.ix.add(k, l, layer(0, n, x as u64)));
        chk!(r.is_ok() && r.unwrap().len() as u64 == n);
    }
    let d = pick(4) as usize;
    // what does not hold the value is not concerned
    let v = pick(4);
    let r = block_on(w.ix.delete(who[d].0, who[d].1, layer(0, n, v)));
    chk!(r.is_ok() && r.unwrap().is_empty());
    for (x, (k, l)) in who.iter().enumerate() {
        are(&all(&w, k, l, n), n, &|i| if x == d && v == x as u64 { vec![] } else { vec![val(i, x as u64)] });
    }
    are(&all(&w, &k2, &Label::from("label3"), n), n, &|_| vec![]);
    mark(0);
    observe(d as u64);
}

/// C15: all the versions of all the lines: no nonce is used twice, no token
/// has two meanings.
pub fn nonces(n: u64, order: u64, _: u64, _: u64) {
    order_mode(order);
    let mut w = World::new();
    let mut seen: HashMap<Vec<u8>, (Token, Vec<u8>)> = HashMap::new();
    let mut look = |w: &World| {
        let (e, c) = w.snap();
        let mut rows: Vec<(Token, Vec<u8>, Vec<u8>)> = Vec::new();
        for (t, v) in &e { rows.push((*t, v.nonce.0.to_vec(), v.ciphertext.to_vec())); }
        for (t, v) in &c { rows.push((*t, v.nonce.0.to_vec(), v.ciphertext.to_vec())); }
        for (t, x, v) in rows {
            match seen.get(&x) {
                Some((u, y)) => chk!(*u == t && *y == v),
                None => { seen.insert(x, (t, v)); }
            }
        }
    };
    chk!(w.add(layer(0, n, 0)).is_ok());
    look(&w);
    chk!(w.op(flip(), layer(0, n, 1)).is_ok());
    look(&w);
    let (k2, l2) = renewed(&w, pick(3));
    chk!(w.compact(&k2, &l2, if flip() { 1.0 } else { 0.0 }).is_ok());
    w.key = k2;
    w.label = l2;
    look(&w);
    chk!(w.add(layer(0, n + 1, 2)).is_ok());
    look(&w);
    chk!(w.snap().0.len() as u64 == n + 1);
    mark(0);
    observe(n);
}

/// C20, C03: a level of `n` keywords, each of which points to a last one.
pub fn wide(n: u64, order: u64, _: u64, _: u64) {
    order_mode(order);
    let w = World::new();
    let (root, leaf) = (Keyword::from("root"), Keyword::from("leaf"));
    let mut v: Vec<(Iv, Keyword)> = Vec::new();
    for i in 0..n {
        v.push((Iv::Pointer(name(i)), root.clone()));
        v.push((data(i, 0), name(i)));
        v.push((Iv::Pointer(leaf.clone()), name(i)));
    }
    v.push((data(n, 0), leaf.clone()));
    chk!(w.add(group(v)).is_ok());
    let (stop, fails) = (pick(4) as usize, flip());
    let seen: RefCell<Vec<HashMap<Keyword, HashSet<Iv>>>> = Default::default();
    let calls = std::cell::Cell::new(u64::MAX);
    w.ctl.reset_count();
    let r = block_on(w.ix.search(&w.key, &w.label, Keywords::from_iter([root.clone()]), &|m| {
        let i = seen.borrow().len();
        seen.borrow_mut().push(m);
        if i == stop { calls.set(w.ctl.total()); }
        async move { if i == stop { if fails { Err("stop".to_string()) } else { Ok(true) } } else { Ok(false) } }
    }));
    let seen = seen.into_inner();
    let levels = (stop + 1).min(3);
    chk!(seen.len() == levels);
    // no call once it is stopped
    if stop < 3 { chk!(w.ctl.total() == calls.get()); }
    chk!(seen[0].len() == 1 && seen[0].get(&root).map(|s| s.len() as u64) == Some(n));
    for i in 0..n { chk!(seen[0][&root].contains(&Iv::Pointer(name(i)))); }
    if levels > 1 {
        chk!(seen[1].len() as u64 == n);
        for i in 0..n {
            let s = seen[1].get(&name(i));
            chk!(s.is_some());
            let s = s.unwrap();
            chk!(s.len() == 2 && s.contains(&data(i, 0)) && s.contains(&Iv::Pointer(leaf.clone())));
        }
    }
    if levels > 2 { chk!(seen[2].len() == 1 && seen[2].get(&leaf).map(|s| s.contains(&data(n, 0)) && s.len() == 1) == Some(true)); }
    if stop < 3 && fails {
        chk!(matches!(r, Err(Error::Interrupt(_))));
        mark(1);
        return;
    }
    chk!(r.is_ok());
    let r = r.unwrap();
    chk!(r.len() == 1);
    let f = &r[&root];
    chk!(f.len() as u64 == match levels { 1 => 0, 2 => n, _ => n + 1 });
    if levels > 1 { for i in 0..n { chk!(f.contains(&Data::from(val(i, 0)))); } }
    mark(0);
    observe(levels as u64);
}

/// C28: one search of `n` keywords, each of which points to another one, while
/// the database fails.
pub fn search_fault(n: u64, order: u64, _: u64, _: u64) {
    order_mode(order);
    let w = World::new();
    let mut v: Vec<(Iv, Keyword)> = Vec::new();
    for i in 0..n {
        v.push((Iv::Pointer(name(n + i)), name(i)));
        v.push((data(i, 0), name(n + i)));
    }
    chk!(w.add(group(v)).is_ok());
    w.ctl.arm(if flip() { Fault::After } else { Fault::Before }, pick(5));
    let q: Vec<Keyword> = (0..n).map(name).collect();
    let r = w.search(&q);
    let fired = w.ctl.c().fired;
    w.ctl.disarm();
    chk!(matches!(r, Err(Error::DbInterface(_))) == fired && r.is_ok() != fired);
    are(&all(&w, &w.key, &w.label, n), n, &first(1));
    mark(fired as u64);
    observe(fired as u64);
}

/// C22: a search of `n` keywords, every other one being indexed, twice.
pub fn pure(n: u64, order: u64, _: u64, _: u64) {
    order_mode(order);
    let w = World::new();
    chk!(w.add(group((0..n).filter(|i| i % 2 == 0).map(|i| (data(i, 0), name(i))).collect())).is_ok());
    if flip() { chk!(w.delete(layer(0, n / 2, 0)).is_ok()); }
    // an unfinished addition
    if flip() {
        w.ctl.arm(Fault::Before, 2);
        chk!(w.add(layer(0, n, 1)).is_err());
        w.ctl.disarm();
    }
    let before = w.snap();
    w.ctl.reset_count();
    let (a, b) = (all(&w, &w.key, &w.label, n), all(&w, &w.key, &w.label, n));
    for i in 0..n { chk!(a.get(&name(i)) == b.get(&name(i))); }
    chk!(w.ctl.writes() == 0);
    let after = w.snap();
    chk!(same_rows(&before.0, &after.0) && same_rows(&before.1, &after.1));
    mark(0);
    observe(after.0.len() as u64);
}

/// C30: the filter on `n` keywords of `m` data each.
pub fn sifted(n: u64, m: u64, order: u64, _: u64) {
    order_mode(order);
    let w = World::new();
    chk!(w.add(group((0..n).flat_map(|i| (0..m).map(move |j| (data(i, j), name(i)))).collect())).is_ok());
    // a deleted datum
    let s = some_index(n);
    let j0 = if flip() { s % m } else { m - 1 };
    chk!(w.delete(one(data(s, j0), name(s))).is_ok());
    let period = 1 + pick(4);
    let keep = |i: u64, j: u64| (i + j) % period == 0;
    let kept: HashSet<Data> = (0..n).flat_map(|i| (0..m).filter(move |j| keep(i, *j)).map(move |j| Data::from(val(i, j)))).collect();
    let given: RefCell<Vec<Data>> = Default::default();
    let k2 = w.ix.keygen();
    let r = block_on(w.ix.compact(&w.key, &k2, &w.label, &w.label, 1.0, &|d: HashSet<Data>| {
        given.borrow_mut().extend(d.iter().cloned());
        let out: HashSet<Data> = d.into_iter().filter(|x| kept.contains(x)).collect();
        async move { Ok(out) }
    }));
    chk!(r.is_ok());
    let given: HashSet<Data> = given.into_inner().into_iter().collect();
    chk!(given.len() as u64 == n * m - 1);
    for i in 0..n { for j in 0..m { chk!(given.contains(&Data::from(val(i, j))) == !(i == s && j == j0)); } }
    are(&all(&w, &k2, &w.label, n), n, &|i| (0..m).filter(|j| keep(i, *j) && !(i == s && *j == j0)).map(|j| val(i, j)).collect());
    mark(0);
    observe(given.len() as u64);
}

/// C31: `n` keywords, saved and restored.
pub fn restore(n: u64, m: u64, order: u64, _: u64) {
    order_mode(order);
    let w = World::new();
    base(&w, n, m);
    fn copy<const N: usize>(a: &Db<N>, b: &Db<N>) {
        let mut ser = Serializer::new();
        chk!(ser.write(&*a.db).is_ok());
        let bytes = ser.finalize().to_vec();
        let mut de = Deserializer::new(&bytes);
        let t = de.read::<InMemoryDb<N>>();
        chk!(t.is_ok());
        for (t, v) in lines(&t.unwrap()) { block_on(b.db.insert(TokenToEncryptedValueMap::from_iter([(t, v)]))).unwrap(); }
        chk!(de.finalize().is_empty());
    }
    let mut v = World::new();
    copy(&w.et, &v.et);
    copy(&w.ct, &v.ct);
    let (a, b) = (w.snap(), v.snap());
    chk!(same_rows(&a.0, &b.0) && same_rows(&a.1, &b.1));
    v.key = w.key.clone();
    v.label = w.label.clone();
    are(&all(&v, &v.key, &v.label, n), n, &first(m));
    // the restored index goes on
    let r = v.add(layer(0, n + 1, m));
    chk!(r.is_ok() && r.unwrap().len() == 1);
    let k2 = v.ix.keygen();
    chk!(v.compact(&k2, &v.label, if flip() { 1.0 } else { 0.0 }).is_ok());
    are(&all(&v, &k2, &v.label, n), n, &first(m + 1));
    are(&all(&w, &w.key, &w.label, n), n, &first(m));
    mark(0);
    observe(n);
}

/// C11, C05: `n` clients make one call at the same time, on a common keyword
/// and one of their own, and take turns from any of them on.
pub fn crowd(n: u64, order: u64, _: u64, _: u64) {
    order_mode(order);
    let w = World::new();
    let known = flip();
    if known { chk!(w.add(one(data(n, 0), name(n))).is_ok()); }
    let clients: Vec<Ix> = (0..n).map(|_| w.client()).collect();
    let (key, label) = (&w.key, &w.label);
    w.ctl.c().yields = true;
    let mut fs: Vec<Pin<Box<dyn Future<Output = Result<Keywords, Error<DbErr>>> + '_>>> = Vec::new();
    for (i, c) in clients.iter().enumerate() {
        let i = i as u64;
        let m = group(vec![(data(n, 1 + i), name(n)), (data(i, 0), name(i))]);
        fs.push(Box::pin(c.add(key, label, m)));
    }
    let (from, step) = (some_index(n), 1 + pick(2));
    let mut out: Vec<Option<Result<Keywords, Error<DbErr>>>> = (0..n).map(|_| None).collect();
    let mut rounds = 0;
    while out.iter().any(|x| x.is_none()) {
        for x in 0..n {
            let i = ((from + x * step) % n) as usize;
            // with an even step, some of them wait for the others
            let i = if out[i].is_some() { match out.iter().position(|y| y.is_none()) { Some(j) => j, None => break } } else { i };
            if let Poll::Ready(r) = poll(&mut fs[i]) { out[i] = Some(r); }
        }
        rounds += 1;
        chk!(rounds < 100 * n);
    }
    w.ctl.c().yields = false;
    let mut fresh = 0;
    for (i, r) in out.into_iter().enumerate() {
        let r = r.unwrap();
        chk!(r.is_ok());
        let r = r.unwrap();
        chk!(r.contains(&name(i as u64)));
        fresh += r.contains(&name(n)) as usize;
        chk!(r.len() == 1 + r.contains(&name(n)) as usize);
    }
    chk!(fresh == !known as usize);
    let lo = if known { 0 } else { 1 };
    are(&all(&w, key, label, n + 1), n + 1, &|i| if i < n { vec![val(i, 0)] } else { (lo..=n).map(|j| val(n, j)).collect() });
    chk!(w.snap().0.len() as u64 == n + 1 && w.snap().1.len() as u64 == 2 * n + known as u64);
    mark(0);
    observe(n);
}

/// C12: `n` additions are made between two steps of a search.
pub fn reader(n: u64, order: u64, _: u64, _: u64) {
    order_mode(order);
    let w = World::new();
    chk!(w.add(group(vec![(Iv::Pointer(name(1)), name(0)), (data(0, 0), name(0)), (data(1, 0), name(1))])).is_ok());
    let c2 = w.client();
    let at = pick(5);
    let count = some_index(n + 1);
    let k = pick(2);
    w.ctl.c().yields = true;
    let mut f: Pin<Box<dyn Future<Output = Result<KeywordToDataMap, Error<DbErr>>> + '_>> =
        Box::pin(async { w.ix.search(&w.key, &w.label, Keywords::from_iter([name(0)]), &|_| async { Ok(false) }).await });
    let mut step = 0;
    let r = loop {
        if step == at {
            w.ctl.c().yields = false;
            for j in 0..count { chk!(block_on(c2.add(&w.key, &w.label, one(data(k, 1 + j), name(k)))).is_ok()); }
            w.ctl.c().yields = true;
        }
        step += 1;
        if let Poll::Ready(r) = poll(&mut f) { break r; }
    };
    w.ctl.c().yields = false;
    chk!(r.is_ok());
    let r = r.unwrap();
    chk!(r.len() == 1);
    let f = &r[&name(0)];
    chk!(f.contains(&Data::from(val(0, 0))) && f.contains(&Data::from(val(1, 0))));
    // the additions are seen in their order, without hole
    let seen = f.len() as u64 - 2;
    chk!(seen <= count);
    for j in 0..seen { chk!(f.contains(&Data::from(val(k, 1 + j)))); }
    for c in [&w.ix, &c2] {
        let r = block_on(c.search(&w.key, &w.label, Keywords::from_iter([name(0)]), &|_| async { Ok(false) }));
        chk!(r.is_ok());
        chk!(r.unwrap().get(&name(0)).map(|f| f.len() as u64) == Some(2 + if step > at { count } else { 0 }));
    }
    mark(0);
    observe(seen);
}

/// C27: conversions of `n` elements.
pub fn conv(n: u64, order: u64, _: u64, _: u64) {
    order_mode(order);
    let keys: Vec<Keyword> = (0..n).map(name).collect();
    // with duplicates
    let s = some_index(n);
    let twice = || keys.iter().cloned().chain([keys[s as usize].clone()]);
    let a = Keywords::from_iter(twice());
    let b = Keywords::from(twice().collect::<HashSet<_>>());
    chk!(a.len() as u64 == n && b.len() as u64 == n);
    for k in &keys { chk!(a.contains(k) && b.contains(k)); }
    let back: HashSet<Keyword> = a.into();
    chk!(back.len() as u64 == n && keys.iter().all(|k| back.contains(k)));
    let tok = |i: u64| { let mut t = [1; 32]; t[30..].copy_from_slice(&id(i)); Token::from(t) };
    let t = Tokens::from_iter((0..n).chain([s]).map(tok));
    chk!(t.len() as u64 == n);
    for i in 0..n { chk!(t.contains(&tok(i))); }
    let back: HashSet<Token> = t.into();
    chk!(back.len() as u64 == n);
    let line = |i: u64| EncryptedValue::<1> { ciphertext: [id(i)[1]], tag: [id(i)[0]; 16], nonce: cosmian_crypto_core::Nonce([0; 12]) };
    let m = TokenToEncryptedValueMap::<1>::from_iter((0..n).map(|i| (tok(i), line(i))));
    chk!(m.len() as u64 == n);
    for i in 0..n { chk!(m.get(&tok(i)) == Some(&line(i))); }
    let l = TokenWithEncryptedValueList::<1>::from((0..n).map(|i| (tok(i), line(i))).collect::<Vec<_>>());
    chk!(l.len() as u64 == n);
    let l: Vec<(Token, EncryptedValue<1>)> = l.into();
    for i in 0..n { chk!(l[i as usize] == (tok(i), line(i))); }
    let v = IndexedValueToKeywordsMap::from_iter((0..n).map(|i| (data(i, 0), Keywords::from_iter([name(i), name(i + 1)]))));
    chk!(v.len() as u64 == n);
    for i in 0..n {
        let k = v.get(&data(i, 0));
        chk!(k.is_some());
        let k = k.unwrap();
        chk!(k.len() == 2 && k.contains(&name(i)) && k.contains(&name(i + 1)));
    }
    mark(0);
    observe(s);
}

/// C06, C21: `n` keywords of two lines, some of which are compacted, `times`
/// times. Only the `sym` first draws are arbitrary.
pub fn partial(n: u64, rate: u64, times: u64, sym: u64) {
    draws(0, sym);
    let mut w = World::new();
    base(&w, n, 2);
    // a keyword which holds nothing any more
    let s = some_index(n);
    for j in 0..2 { chk!(w.delete(one(data(s, j), name(s))).is_ok()); }
    let mut held = 0;
    for t in 0..times {
        let (e0, c0) = w.snap();
        let (k2, l2) = renewed(&w, t % 3);
        let given: RefCell<Vec<Data>> = Default::default();
        let r = block_on(w.ix.compact(&w.key, &k2, &w.label, &l2, [0.01, 0.05, 0.2, 0.45][rate as usize], &|d: HashSet<Data>| {
            given.borrow_mut().extend(d.iter().cloned());
            async { Ok(d) }
        }));
        chk!(r.is_ok());
        // the former index is empty
        are(&all(&w, &w.key, &w.label, n), n, &|_| vec![]);
        w.key = k2;
        w.label = l2;
        let (e1, c1) = w.snap();
        let gone = e0.len() - e1.len();
        held += gone;
        chk!(held <= 1);
        for (t, _) in &e1 { chk!(row(&e0, t).is_none()); }
        // untouched lines, and new ones
        let kept = c1.iter().filter(|x| row(&c0, &x.0).as_ref() == Some(&x.1)).count();
        for (t, v) in &c1 { chk!(row(&c0, t).is_none() || row(&c0, t).as_ref() == Some(v)); }
        let given: HashSet<Data> = given.into_inner().into_iter().collect();
        chk!((c1.len() > kept) == !given.is_empty());
        for i in 0..n { chk!(given.contains(&Data::from(val(i, 0))) == given.contains(&Data::from(val(i, 1)))); }
        are(&all(&w, &w.key, &w.label, n), n, &|i| if i == s { vec![] } else { vec![val(i, 0), val(i, 1)] });
    }
    let r = w.add(layer(0, n, 2));
    chk!(r.is_ok() && r.unwrap().len() == held);
    are(&all(&w, &w.key, &w.label, n), n, &|i| if i == s { vec![val(i, 2)] } else { vec![val(i, 0), val(i, 1), val(i, 2)] });
    mark(0);
    observe(n);
}
