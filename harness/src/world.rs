//! Helpers shared by the harnesses.
use crate::api::*;
use crate::db::*;
use cosmian_crypto_core::FixedSizeCBytes;
use cosmian_findex::*;
use std::collections::{HashMap, HashSet};

pub type Et = EntryTable<ENTRY_LENGTH, Db<ENTRY_LENGTH>>;
pub type Ct = ChainTable<LINK_LENGTH, Db<LINK_LENGTH>>;
pub type Ix = Findex<DbErr, Et, Ct>;
pub type Iv = IndexedValue<Keyword, Data>;

pub struct World {
    pub ctl: CtlRef,
    pub et: Db<ENTRY_LENGTH>,
    pub ct: Db<LINK_LENGTH>,
    pub ix: Ix,
    pub key: UserKey,
    pub label: Label,
}
impl World {
    pub fn new() -> Self {
        let ctl = new_ctl();
        let et = Db::new(0, &ctl);
        let ct = Db::new(1, &ctl);
        let ix = Ix::new(Et::setup(et.clone()), Ct::setup(ct.clone()));
        let key = ix.keygen();
        Self { ctl, et, ct, ix, key, label: Label::from("label") }
    }
    /// Another client of the same tables.
    pub fn client(&self) -> Ix { Ix::new(Et::setup(self.et.clone()), Ct::setup(self.ct.clone())) }
    pub fn add(&self, m: IndexedValueToKeywordsMap) -> Result<Keywords, Error<DbErr>> { block_on(self.ix.add(&self.key, &self.label, m)) }
    pub fn delete(&self, m: IndexedValueToKeywordsMap) -> Result<Keywords, Error<DbErr>> { block_on(self.ix.delete(&self.key, &self.label, m)) }
    pub fn op(&self, add: bool, m: IndexedValueToKeywordsMap) -> Result<Keywords, Error<DbErr>> { if add { self.add(m) } else { self.delete(m) } }
    pub fn search(&self, k: &[Keyword]) -> Result<KeywordToDataMap, Error<DbErr>> { self.search_as(&self.key, &self.label, k) }
    pub fn search_as(&self, key: &UserKey, label: &Label, k: &[Keyword]) -> Result<KeywordToDataMap, Error<DbErr>> {
        block_on(self.ix.search(key, label, Keywords::from_iter(k.iter().cloned()), &|_| async { Ok(false) }))
    }
    /// Data found under one keyword. Fails when the search does, or when the
    /// keyword is not in the result.
    pub fn find(&self, k: &Keyword) -> Option<Vec<Vec<u8>>> { self.find_as(&self.key, &self.label, k) }
    pub fn find_as(&self, key: &UserKey, label: &Label, k: &Keyword) -> Option<Vec<Vec<u8>>> {
        let r = self.search_as(key, label, std::slice::from_ref(k)).ok()?;
        if r.len() != 1 { return None; }
        r.get(k).map(list)
    }
    pub fn compact(&self, k2: &UserKey, l2: &Label, rate: f64) -> Result<(), Error<DbErr>> {
        block_on(self.ix.compact(&self.key, k2, &self.label, l2, rate, &|d| async { Ok(d) }))
    }
    pub fn snap(&self) -> (Rows<ENTRY_LENGTH>, Rows<LINK_LENGTH>) { (rows(&self.et), rows(&self.ct)) }
}

/// Any change of the bytes `lo..hi` of `raw`; each of the parts which end at
/// `ends` is either replaced or masked: the same changes, but for a replay,
/// whose bytes are not those of the model (hence the second result: whether
/// they are all masked).
pub fn change(raw: &mut [u8], lo: usize, hi: usize, ends: &[usize]) -> (bool, bool) {
    let mut changed = 0;
    let mut all = true;
    let mut from = lo;
    for e in ends {
        let to = (*e).min(hi);
        if from >= to { continue; }
        let masked = flip();
        all &= masked;
        for x in &mut raw[from..to] {
            let y = if masked { *x ^ byte() } else { byte() };
            changed |= *x ^ y;
            *x = y;
        }
        from = to;
    }
    (changed != 0, all)
}
/// An arbitrary key.
pub fn any_key() -> UserKey { UserKey::try_from_bytes(bytes(16).try_into().unwrap()).unwrap() }

pub type Rows<const N: usize> = Vec<(Token, EncryptedValue<N>)>;
pub fn rows<const N: usize>(db: &Db<N>) -> Rows<N> { lines(&db.db) }
/// All the lines of a table, through its public interface.
pub fn lines<const N: usize>(db: &InMemoryDb<N>) -> Rows<N> {
    let Ok(t) = block_on(db.dump_tokens()) else { return vec![] };
    match block_on(db.fetch(t)) { Ok(l) => l.into(), Err(_) => vec![] }
}
/// Writes a line, whether there is one or not.
pub fn put_line<const N: usize>(db: &InMemoryDb<N>, t: Token, v: EncryptedValue<N>) {
    block_on(db.delete(Tokens::from_iter([t]))).unwrap();
    block_on(db.insert(TokenToEncryptedValueMap::from_iter([(t, v)]))).unwrap();
}
/// Lengths around the sizes at which an implementation may change its mind.
pub const LENS: [usize; 20] = [0, 1, 2, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 200, 255, 256, 257, 1025];
/// A symbolic length: up to `mode` if it is under 100, in `LENS` otherwise
/// (the `mode - 100` first ones, or only those from the 50th on).
pub fn some_len(mode: u64) -> usize {
    if mode < 100 { pick(mode + 1) as usize } else { LENS[pick((mode - 100).min(20)) as usize] }
}
/// A symbolic index under `n`; only some of them when there are many.
pub fn some_index(n: u64) -> u64 {
    if n <= 40 { return pick(n); }
    let some = [0, 1, n / 2, 254, 255, 256, n - 2, n - 1];
    some[pick(8) as usize].min(n - 1)
}
/// Numbers as two bytes.
pub fn id(i: u64) -> Vec<u8> { vec![(i / 250) as u8, (i % 250) as u8] }
pub fn row<const N: usize>(r: &Rows<N>, t: &Token) -> Option<EncryptedValue<N>> { r.iter().find(|x| x.0 == *t).map(|x| x.1.clone()) }
/// Every row of `a` is in `b`, unchanged.
pub fn within<const N: usize>(a: &Rows<N>, b: &Rows<N>) -> bool { a.iter().all(|(t, v)| row(b, t).as_ref() == Some(v)) }
pub fn same_rows<const N: usize>(a: &Rows<N>, b: &Rows<N>) -> bool { a.len() == b.len() && within(a, b) }
pub fn list(s: &HashSet<Data>) -> Vec<Vec<u8>> { s.iter().map(|d| d.to_vec()).collect() }

pub fn kw(b: u8) -> Keyword { Keyword::from(&[b][..]) }
pub fn dat(b: u8) -> Data { Data::from(&[b][..]) }
pub fn one(v: Iv, k: Keyword) -> IndexedValueToKeywordsMap { IndexedValueToKeywordsMap::from_iter([(v, Keywords::from_iter([k]))]) }
pub fn d1(d: u8, k: u8) -> IndexedValueToKeywordsMap { one(Iv::Data(dat(d)), kw(k)) }
/// The associations `(value, keyword)`, grouped by value.
pub fn group(v: Vec<(Iv, Keyword)>) -> IndexedValueToKeywordsMap {
    let mut m: HashMap<Iv, HashSet<Keyword>> = HashMap::new();
    for (x, k) in v { m.entry(x).or_default().insert(k); }
    IndexedValueToKeywordsMap::from(m)
}

/// Equality of byte strings, without a fork per byte.
pub fn eq(a: &[u8], b: &[u8]) -> bool {
    if a.len() != b.len() { return false; }
    let mut d = 0u8;
    for i in 0..a.len() { d |= a[i] ^ b[i]; }
    d == 0
}
pub fn has(s: &[Vec<u8>], d: &[u8]) -> bool {
    let mut r = false;
    for x in s { r |= eq(x, d); }
    r
}

/// One modification of the index: association of a one-byte datum to a
/// one-byte keyword.
#[derive(Clone, Copy)]
pub struct Op { pub add: bool, pub k: u8, pub d: u8 }
/// Reference semantics: the last operation on an association decides.
pub fn live(ops: &[Op], k: u8, d: u8) -> bool {
    let mut r = false;
    for o in ops {
        let hit = (o.k == k) & (o.d == d);
        r = (hit & o.add) | (!hit & r);
    }
    r
}
/// `found` is exactly the set of the data associated to `k` by `ops`.
pub fn exact(found: &[Vec<u8>], ops: &[Op], k: u8) -> bool {
    let mut ok = true;
    for o in ops { ok &= has(found, &[o.d]) == live(ops, k, o.d); }
    for x in found {
        let mut known = false;
        if x.len() == 1 { for o in ops { known |= (o.d == x[0]) & (o.k == k); } }
        ok &= known;
    }
    ok
}
pub fn apply(w: &World, o: &Op) -> Result<Keywords, Error<DbErr>> { w.op(o.add, d1(o.d, o.k)) }
pub fn sym_op() -> Op { let k = byte(); let d = byte(); Op { add: flip(), k, d } }
