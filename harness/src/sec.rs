//! Keys, labels, and what the tables reveal.
use crate::api::*;
use crate::db::*;
use crate::world::*;
use cosmian_crypto_core::RandomFixedSizeCBytes;
use cosmian_findex::*;
use std::mem::ManuallyDrop;
const FILE: u64 = 5;

/// C14: indexes in the same tables, under several keys and labels, are
/// independent. `n` symbolic operations, with labels of up to `len` bytes.
/// any: the keys are any different bytes.
pub fn isolate(n: u64, len: u64, deletes: u64, any: u64) {
    order_mode(0);
    let w = World::new();
    let keys = if any == 1 { [any_key(), any_key()] } else { [w.key.clone(), w.ix.keygen()] };
    if any == 1 { assume(!eq(keys[0].as_bytes(), keys[1].as_bytes())); }
    let labels: Vec<Vec<u8>> = (0..2).map(|_| bytes(pick(len + 1) as usize)).collect();
    let mut ops: Vec<(usize, usize, Op)> = Vec::new();
    for i in 0..n {
        let (a, b) = (pick(2) as usize, pick(2) as usize);
        let o = Op { add: deletes == 0 || flip(), k: byte(), d: if deletes == 1 { 5 } else { i as u8 } };
        let m = d1(o.d, o.k);
        let l = Label::from(labels[b].clone());
        let r = block_on(async { if o.add { w.ix.add(&keys[a], &l, m).await } else { w.ix.delete(&keys[a], &l, m).await } });
        chk!(r.is_ok());
        let mut known = false;
        for (x, y, p) in &ops { known |= *x == a && eq(&labels[*y], &labels[b]) && p.k == o.k; }
        chk!((r.unwrap().len() == 0) == known);
        ops.push((a, b, o));
    }
    let (a, l, q) = (pick(2) as usize, bytes(pick(len + 1) as usize), byte());
    let f = w.find_as(&keys[a], &Label::from(l.clone()), &kw(q));
    chk!(f.is_some());
    let f = f.unwrap();
    let mine: Vec<Op> = ops.iter().filter(|(x, y, _)| *x == a && eq(&labels[*y], &l)).map(|x| x.2).collect();
    chk!(exact(&f, &mine, q));
    observe(f.len() as u64);
    if f.is_empty() { mark(0); } else { mark(1); }
}

/// C15: nothing stored depends on what is indexed, but through the pseudo-random
/// functions and the encryption. which: 0 addition, 1 deletion, 2 compaction.
///
/// Under symbolic execution, a stored byte depends on the keyword, the value or
/// the label if it is not a constant. In the native replay, bytes which do not
/// change with the keys (or, but for the token, with the encryption) reveal
/// that they are not what they should be.
pub fn opaque(which: u64, len: u64, calls: u64, _: u64) {
    order_mode(0);
    let k = bytes(3);
    let v = bytes(len as usize);
    let l = bytes(2);
    let pointer = flip();
    let runs = if SYM { 1 } else { 48 };
    // [fresh key at each run, same key]
    for same_key in [false, true] {
        let mut seen: Vec<Vec<Vec<u8>>> = Vec::new();
        let first = World::new();
        for _ in 0..runs {
            let mut w = World::new();
            if same_key { w.key = first.key.clone(); }
            w.label = Label::from(l.clone());
            for _ in 0..calls {
                let iv = if pointer { Iv::Pointer(Keyword::from(v.clone())) } else { Iv::Data(Data::from(v.clone())) };
                chk!(w.op(which != 1, one(iv, Keyword::from(k.clone()))).is_ok());
            }
            if which == 2 {
                let k2 = if same_key { first.key.clone() } else { w.ix.keygen() };
                chk!(w.compact(&k2, &Label::from("x"), 1.0).is_ok());
            }
            let (e, c) = w.snap();
            let mut all: Vec<Vec<u8>> = Vec::new();
            for (t, x) in &e { if !same_key { all.push(t.to_vec()); } all.push(Vec::from(x)); }
            for (t, x) in &c { all.push(t.to_vec()); all.push(Vec::from(x)); }
            if SYM { for r in &all { for b in r { chk!(*b as u64 == peek(*b as u64)); } } }
            seen.push(all);
        }
        if !SYM {
            for i in 0..seen[0].len() {
                for j in 0..seen[0][i].len() {
                    chk!(seen.iter().any(|r| r[i][j] != seen[0][i][j]));
                }
            }
        }
    }
    mark(0);
}

/// C15: a nonce is never used twice, and rewriting a line renews it entirely.
/// `n` symbolic operations, seen by someone who keeps all the versions.
pub fn nonces(n: u64, m: u64, _: u64, _: u64) {
    order_mode(0);
    let mut w = World::new();
    let mut seen: Vec<(Token, Vec<u8>, Vec<u8>)> = Vec::new();
    let mut observe_all = |w: &World| {
        let (e, c) = w.snap();
        let mut rows: Vec<(Token, Vec<u8>, Vec<u8>)> = Vec::new();
        for (t, v) in &e { rows.push((*t, v.nonce.0.to_vec(), v.ciphertext.to_vec())); }
        for (t, v) in &c { rows.push((*t, v.nonce.0.to_vec(), v.ciphertext.to_vec())); }
        for r in rows {
            // the same line as before, or one which shares nothing
            let mut old = false;
            for s in &seen {
                let (a, b) = (eq(&s.1, &r.1), eq(&s.2, &r.2));
                chk!(a == b);
                // the same line: under the same token
                chk!(!a || s.0 == r.0);
                old |= a;
            }
            if !old { seen.push(r); }
        }
    };
    for _ in 0..n {
        let o = sym_op();
        chk!(apply(&w, &o).is_ok());
        observe_all(&w);
    }
    for i in 0..m {
        let (k2, l2) = if flip() { (w.ix.keygen(), w.label.clone()) } else { (w.key.clone(), Label::from(vec![b'n', i as u8])) };
        chk!(w.compact(&k2, &l2, if flip() { 1.0 } else { 0.0 }).is_ok());
        w.key = k2;
        w.label = l2;
        observe_all(&w);
        let o = sym_op();
        chk!(apply(&w, &o).is_ok());
        observe_all(&w);
    }
    mark(0);
    observe(n);
}

/// C16: the stored bytes are altered: the operations which read them fail, and
/// never give other data. table: 0 entry, 1 chain; part: 0 one byte anywhere,
/// 1 the whole mac, 2 the whole ciphertext, 3 the whole nonce, 4 the whole line.
pub fn tamper(table: u64, part: u64, action: u64, _: u64) {
    order_mode(0);
    let w = World::new();
    // all the lines ever written
    let mut genuine: Vec<Vec<u8>> = Vec::new();
    for (d, k) in [(1, 1), (2, 1), (3, 2)] {
        chk!(w.add(d1(d, k)).is_ok());
        let (e, c) = w.snap();
        for (_, v) in &e { genuine.push(Vec::from(v)); }
        for (_, v) in &c { genuine.push(Vec::from(v)); }
    }
    let genuine = &genuine;
    fn alter<const N: usize>(db: &InMemoryDb<N>, part: u64, i: usize, genuine: &[Vec<u8>]) -> (bool, bool, Vec<u8>) {
        let (t, v) = lines(db)[i].clone();
        let mut raw: Vec<u8> = Vec::from(&v);
        let (mut changed, mut masked) = (false, true);
        let (lo, hi) = match part { 0 => (0, 0), 1 => (12 + N, 28 + N), 2 => (12, 12 + N), 3 => (0, 12), _ => (0, 28 + N) };
        if part == 0 {
            let (i, m) = (pick(raw.len() as u64) as usize, byte());
            raw[i] ^= m;
            changed = m != 0;
        }
        if part > 0 { (changed, masked) = change(&mut raw, lo, hi, &[12, 12 + N, 28 + N]); }
        // a genuine line put in place of another one, or of a later version
        // of itself, is not detected
        if part == 4 { for g in genuine { if changed { assume(!eq(&raw, g)); } } }
        put_line(db, t, EncryptedValue::try_from(&raw[..]).unwrap());
        (changed, masked, raw)
    }
    let i = if table == 0 { pick(2) } else { pick(3) };
    let (changed, masked, raw) = if table == 0 { alter(&w.et.db, part, i as usize, genuine) } else { alter(&w.ct.db, part, i as usize, genuine) };
    mark(changed as u64);
    if action == 0 {
        let (f, g) = (w.search(&[kw(1)]), w.search(&[kw(2)]));
        if !changed { chk!(f.is_ok() && g.is_ok()); }
        // one of the keywords is the one altered
        if changed { chk!(f.is_err() | g.is_err()); chk!(f.is_ok() | g.is_ok()); }
        if let Ok(f) = &f { let f = list(f.get(&kw(1)).unwrap()); chk!(f.len() == 2 && has(&f, &[1]) && has(&f, &[2])); }
        if let Ok(g) = &g { let g = list(g.get(&kw(2)).unwrap()); chk!(g.len() == 1 && has(&g, &[3])); }
        observe(if masked { f.is_ok() as u64 + g.is_ok() as u64 } else { 9 });
    } else if action == 1 {
        // a writer detects the altered entry, and writes nothing
        let before = w.snap();
        let (f, g) = (w.add(d1(4, 1)), w.add(d1(4, 2)));
        // nor is a line which was to be written later
        if part == 4 && changed && f.is_ok() { for (_, v) in &w.snap().0 { assume(!eq(&raw, &Vec::from(v)) || g.is_err()); } }
        if changed && table == 0 { chk!(f.is_err() | g.is_err()); chk!(f.is_ok() | g.is_ok()); }
        if !changed || table == 1 { chk!(f.is_ok() && g.is_ok()); }
        let after = w.snap();
        chk!(within(&before.1, &after.1));
        chk!(after.1.len() == before.1.len() + f.is_ok() as usize + g.is_ok() as usize);
        observe(if masked { f.is_ok() as u64 + g.is_ok() as u64 } else { 9 });
    } else {
        // so does a compaction
        let before = w.snap();
        let k2 = w.ix.keygen();
        let r = w.compact(&k2, &w.label, 1.0);
        chk!(r.is_ok() != changed);
        if changed {
            let after = w.snap();
            chk!(same_rows(&before.0, &after.0));
            chk!(same_rows(&before.1, &after.1));
        }
        observe(if masked { r.is_ok() as u64 } else { 9 });
    }
}

/// C25: the keys of the tables are derived separately from any seed, and the
/// tokens of the tables from disjoint domains.
/// `n`: length of the inputs; `other`: see `some_len`, for the second input of
/// the chain table and for the labels.
pub fn derive(n: u64, other: u64, labels: u64, _: u64) {
    order_mode(0);
    let w = World::new();
    let mm = &w.ix.findex_graph.findex_mm;
    let (et, ct) = (&mm.entry_table, &mm.chain_table);
    let mut raw = [[0u8; 16]; 2];
    for r in raw.iter_mut() { for b in r.iter_mut() { *b = byte(); } }
    let same = eq(&raw[0], &raw[1]);
    let mk = |r: &[u8; 16]| {
        let mut s = <Et as DxEnc<ENTRY_LENGTH>>::Seed::default();
        s.as_mut().copy_from_slice(r);
        let mut c = <Ct as DxEnc<LINK_LENGTH>>::Seed::default();
        c.as_mut().copy_from_slice(r);
        (et.derive_keys(&s), ct.derive_keys(&c))
    };
    let (a, b) = (mk(&raw[0]), mk(&raw[1]));
    let ka = [a.0.token.as_bytes(), a.0.value.as_bytes(), a.1.token.as_bytes(), a.1.value.as_bytes()];
    let kb = [b.0.token.as_bytes(), b.0.value.as_bytes(), b.1.token.as_bytes(), b.1.value.as_bytes()];
    for i in 0..4 {
        for j in 0..4 {
            if i < j { chk!(!eq(ka[i], ka[j])); }
            chk!(eq(ka[i], kb[j]) == (i == j && same));
        }
    }
    // tokens: equal iff the inputs are
    let (x, y) = (bytes(n as usize), bytes(n as usize));
    let (l, m) = if labels == 0 { (bytes(1 + pick(2) as usize), bytes(1 + pick(2) as usize)) } else { (bytes(some_len(labels)), bytes(some_len(labels))) };
    let (lx, lm) = (Label::from(l.clone()), Label::from(m.clone()));
    let t = et.tokenize(&a.0, &x, Some(&lx));
    let u = et.tokenize(&a.0, &y, Some(&lm));
    chk!((t == u) == (eq(&x, &y) && eq(&l, &m)));
    let u = et.tokenize(&b.0, &x, Some(&lx));
    chk!((t == u) == same);
    let (t, u) = (ct.tokenize(&a.1, &x, None), ct.tokenize(&a.1, &y, None));
    chk!((t == u) == eq(&x, &y));
    let u = ct.tokenize(&b.1, &x, None);
    chk!((t == u) == same);
    let u = et.tokenize(&a.0, &x, Some(&lx));
    chk!(t != u);
    // a chain is known by the hash of its keyword, or by the previous token
    let z = bytes(some_len(other));
    let u = ct.tokenize(&a.1, &z, None);
    chk!((t == u) == eq(&x, &z));
    mark(if same { 0 } else { 1 });
    observe(same as u64);
}

/// C26: the seeds are erased from memory when they are
/// dropped. `how`: 1 after a use
pub fn wipe(how: u64, _: u64, _: u64, _: u64) {
    fn bytes_of<T>(x: &ManuallyDrop<T>) -> Vec<u8> {
        let p = x as *const ManuallyDrop<T> as *const u8;
        (0..std::mem::size_of::<T>()).map(|i| unsafe { std::ptr::read_volatile(p.add(i)) }).collect()
    }
    fn test<S: Default + AsRef<[u8]> + AsMut<[u8]>>(used: impl Fn(&mut S)) {
        let mut s = ManuallyDrop::new(S::default());
        for b in s.as_mut() { *b = byte() | 1; }
        chk!(bytes_of(&s).len() >= 16 && s.as_ref().len() == bytes_of(&s).len());
        for b in bytes_of(&s) { chk!(b != 0); }
        used(&mut s);
        unsafe { ManuallyDrop::drop(&mut s); }
        for b in bytes_of(&s) { chk!(b == 0); }
    }
    let w = World::new();
    let mm = &w.ix.findex_graph.findex_mm;
    test::<<Et as DxEnc<ENTRY_LENGTH>>::Seed>(|s| if how == 1 { mm.entry_table.derive_keys(s); });
    test::<<Ct as DxEnc<LINK_LENGTH>>::Seed>(|s| if how == 1 { mm.chain_table.derive_keys(s); });
    mark(0);
    observe(0);
}
