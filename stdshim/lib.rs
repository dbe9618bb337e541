//! `std` as seen by the code under symbolic execution.
//!
//! Everything is the real standard library except:
//! - `collections::{HashMap, HashSet}`: association lists with the same API and
//!   contract. The iteration order, unspecified by the real ones, is asked from
//!   the engine (`sym_map_order`), so that a property is decided for several
//!   orders, and not for the one a hash function happens to give.
//! - `format!`: type-checks its arguments and yields an empty string (the text
//!   of the error messages is not subject to any property).
#![no_std]
#![allow(unused, clippy::all)]
#![feature(prelude_import)]
extern crate std as real;
pub use real::*;

#[macro_export]
macro_rules! format {
    ($($arg:tt)*) => {{
        let _ = $crate::format_args!($($arg)*);
        $crate::string::String::new()
    }};
}

pub mod collections {
    pub use real::collections::*;
    pub use self::hash_map::HashMap;
    pub use self::hash_set::HashSet;

    pub(crate) mod order {
        use real::vec::Vec;
        extern "C" {
            /// Code of the order in which `n` elements are visited.
            fn sym_map_order(n: u64) -> u64;
        }
        /// Positions of the `n` elements in the order of the visit.
        pub fn permutation(n: usize) -> Vec<usize> {
            let mut rest: Vec<usize> = (0..n).collect();
            if n < 2 {
                return rest;
            }
            let mut code = unsafe { sym_map_order(n as u64) } as usize;
            if code == 0 {
                return rest;
            }
            let mut out = Vec::with_capacity(n);
            if n <= 4 {
                // Lehmer code: `code` ranges over the n! permutations.
                let mut left = n;
                while left > 0 {
                    let k = code % left;
                    code /= left;
                    out.push(rest.remove(k));
                    left -= 1;
                }
            } else {
                // rotations, and reversed rotations
                let rev = code >= n;
                let r = code % n;
                let mut i = 0;
                while i < n {
                    let p = (i + r) % n;
                    out.push(if rev { n - 1 - p } else { p });
                    i += 1;
                }
            }
            out
        }
        pub fn shuffle<T>(v: Vec<T>) -> Vec<T> {
            let n = v.len();
            if n < 2 {
                return v;
            }
            let p = permutation(n);
            let mut slots: Vec<Option<T>> = v.into_iter().map(Some).collect();
            p.into_iter().map(|i| slots[i].take().unwrap()).collect()
        }
    }

    pub mod hash_map {
        use super::order::{permutation, shuffle};
        use core::borrow::Borrow;
        use core::fmt;
        use core::hash::{BuildHasher, Hash};
        use core::iter::FusedIterator;
        use core::marker::PhantomData;
        use core::ops::Index;
        use real::boxed::Box;
        pub use real::collections::hash_map::{DefaultHasher, RandomState};
        use real::collections::TryReserveError;
        use real::vec::{self, Vec};
        use core::prelude::rust_2021::*;

        pub struct HashMap<K, V, S = RandomState> {
            pub(crate) items: Vec<(K, V)>,
            pub(crate) s: PhantomData<S>,
        }

        impl<K, V> HashMap<K, V, RandomState> {
            pub fn new() -> Self { Self { items: Vec::new(), s: PhantomData } }
            pub fn with_capacity(n: usize) -> Self {
                // The capacity is a hint: a large one must not fail.
                if n > 1 << 40 { panic!("capacity overflow") }
                Self { items: Vec::with_capacity(if n > 64 { 64 } else { n }), s: PhantomData }
            }
        }
        impl<K, V, S> HashMap<K, V, S> {
            pub fn with_hasher(_: S) -> Self { Self { items: Vec::new(), s: PhantomData } }
            pub fn with_capacity_and_hasher(_: usize, _: S) -> Self { Self { items: Vec::new(), s: PhantomData } }
            pub fn capacity(&self) -> usize { self.items.capacity() }
            pub fn len(&self) -> usize { self.items.len() }
            pub fn is_empty(&self) -> bool { self.items.is_empty() }
            pub fn clear(&mut self) { self.items.clear() }
            pub fn iter(&self) -> Iter<'_, K, V> {
                let v: Vec<(&K, &V)> = self.items.iter().map(|(k, v)| (k, v)).collect();
                Iter { it: shuffle(v).into_iter() }
            }
            pub fn iter_mut(&mut self) -> IterMut<'_, K, V> {
                let v: Vec<(&K, &mut V)> = self.items.iter_mut().map(|(k, v)| (&*k, v)).collect();
                IterMut { it: shuffle(v).into_iter() }
            }
            pub fn keys(&self) -> Keys<'_, K, V> { Keys { it: self.iter() } }
            pub fn values(&self) -> Values<'_, K, V> { Values { it: self.iter() } }
            pub fn values_mut(&mut self) -> ValuesMut<'_, K, V> { ValuesMut { it: self.iter_mut() } }
            pub fn into_keys(self) -> IntoKeys<K, V> { IntoKeys { it: self.into_iter() } }
            pub fn into_values(self) -> IntoValues<K, V> { IntoValues { it: self.into_iter() } }
            pub fn drain(&mut self) -> Drain<'_, K, V> {
                let v = core::mem::take(&mut self.items);
                Drain { it: shuffle(v).into_iter(), m: PhantomData }
            }
            pub fn retain<F: FnMut(&K, &mut V) -> bool>(&mut self, mut f: F) {
                let v = core::mem::take(&mut self.items);
                for (k, mut x) in shuffle(v) {
                    if f(&k, &mut x) {
                        self.items.push((k, x));
                    }
                }
            }
        }
        impl<K: Eq + Hash, V, S> HashMap<K, V, S> {
            fn find<Q: ?Sized + Hash + Eq>(&self, k: &Q) -> Option<usize> where K: Borrow<Q> {
                let mut i = 0;
                while i < self.items.len() {
                    if k == self.items[i].0.borrow() { return Some(i); }
                    i += 1;
                }
                None
            }
            pub fn reserve(&mut self, _: usize) {}
            pub fn try_reserve(&mut self, _: usize) -> Result<(), TryReserveError> { Ok(()) }
            pub fn shrink_to_fit(&mut self) {}
            pub fn shrink_to(&mut self, _: usize) {}
            pub fn get<Q: ?Sized + Hash + Eq>(&self, k: &Q) -> Option<&V> where K: Borrow<Q> {
                self.find(k).map(|i| &self.items[i].1)
            }
            pub fn get_key_value<Q: ?Sized + Hash + Eq>(&self, k: &Q) -> Option<(&K, &V)> where K: Borrow<Q> {
                self.find(k).map(|i| { let e = &self.items[i]; (&e.0, &e.1) })
            }
            pub fn get_mut<Q: ?Sized + Hash + Eq>(&mut self, k: &Q) -> Option<&mut V> where K: Borrow<Q> {
                match self.find(k) { Some(i) => Some(&mut self.items[i].1), None => None }
            }
            pub fn contains_key<Q: ?Sized + Hash + Eq>(&self, k: &Q) -> bool where K: Borrow<Q> {
                self.find(k).is_some()
            }
            pub fn insert(&mut self, k: K, v: V) -> Option<V> {
                match self.find(&k) {
                    Some(i) => Some(core::mem::replace(&mut self.items[i].1, v)),
                    None => { self.items.push((k, v)); None }
                }
            }
            pub fn remove<Q: ?Sized + Hash + Eq>(&mut self, k: &Q) -> Option<V> where K: Borrow<Q> {
                self.remove_entry(k).map(|e| e.1)
            }
            pub fn remove_entry<Q: ?Sized + Hash + Eq>(&mut self, k: &Q) -> Option<(K, V)> where K: Borrow<Q> {
                match self.find(k) { Some(i) => Some(self.items.remove(i)), None => None }
            }
            pub fn entry(&mut self, k: K) -> Entry<'_, K, V> {
                match self.find(&k) {
                    Some(i) => Entry::Occupied(OccupiedEntry { items: &mut self.items, i, key: Some(k) }),
                    None => Entry::Vacant(VacantEntry { items: &mut self.items, key: k }),
                }
            }
            pub fn extract_if<F: FnMut(&K, &mut V) -> bool>(&mut self, mut f: F) -> vec::IntoIter<(K, V)> {
                let v = core::mem::take(&mut self.items);
                let mut out = Vec::new();
                for (k, mut x) in shuffle(v) {
                    if f(&k, &mut x) { out.push((k, x)); } else { self.items.push((k, x)); }
                }
                out.into_iter()
            }
        }
        impl<K: Clone, V: Clone, S> Clone for HashMap<K, V, S> {
            fn clone(&self) -> Self { Self { items: self.items.clone(), s: PhantomData } }
        }
        impl<K, V, S> Default for HashMap<K, V, S> {
            fn default() -> Self { Self { items: Vec::new(), s: PhantomData } }
        }
        impl<K: fmt::Debug, V: fmt::Debug, S> fmt::Debug for HashMap<K, V, S> {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str("{}") }
        }
        impl<K: Eq + Hash, V: PartialEq, S> PartialEq for HashMap<K, V, S> {
            fn eq(&self, o: &Self) -> bool {
                self.len() == o.len() && self.items.iter().all(|(k, v)| o.get(k).map_or(false, |w| v == w))
            }
        }
        impl<K: Eq + Hash, V: Eq, S> Eq for HashMap<K, V, S> {}
        impl<K: Eq + Hash + Borrow<Q>, Q: ?Sized + Eq + Hash, V, S> Index<&Q> for HashMap<K, V, S> {
            type Output = V;
            fn index(&self, k: &Q) -> &V { self.get(k).expect("no entry found for key") }
        }
        impl<K: Eq + Hash, V, S> FromIterator<(K, V)> for HashMap<K, V, S> {
            fn from_iter<T: IntoIterator<Item = (K, V)>>(it: T) -> Self {
                let mut m = Self::default();
                for (k, v) in it { m.insert(k, v); }
                m
            }
        }
        impl<K: Eq + Hash, V, const N: usize> From<[(K, V); N]> for HashMap<K, V, RandomState> {
            fn from(a: [(K, V); N]) -> Self { Self::from_iter(a) }
        }
        impl<K: Eq + Hash, V, S> Extend<(K, V)> for HashMap<K, V, S> {
            fn extend<T: IntoIterator<Item = (K, V)>>(&mut self, it: T) {
                for (k, v) in it { self.insert(k, v); }
            }
        }
        impl<'a, K: Eq + Hash + Copy, V: Copy, S> Extend<(&'a K, &'a V)> for HashMap<K, V, S> {
            fn extend<T: IntoIterator<Item = (&'a K, &'a V)>>(&mut self, it: T) {
                for (k, v) in it { self.insert(*k, *v); }
            }
        }
        impl<K, V, S> IntoIterator for HashMap<K, V, S> {
            type Item = (K, V);
            type IntoIter = IntoIter<K, V>;
            fn into_iter(self) -> IntoIter<K, V> { IntoIter { it: shuffle(self.items).into_iter() } }
        }
        impl<'a, K, V, S> IntoIterator for &'a HashMap<K, V, S> {
            type Item = (&'a K, &'a V);
            type IntoIter = Iter<'a, K, V>;
            fn into_iter(self) -> Iter<'a, K, V> { self.iter() }
        }
        impl<'a, K, V, S> IntoIterator for &'a mut HashMap<K, V, S> {
            type Item = (&'a K, &'a mut V);
            type IntoIter = IterMut<'a, K, V>;
            fn into_iter(self) -> IterMut<'a, K, V> { self.iter_mut() }
        }

        macro_rules! iter {
            ([$($g:tt)*] $name:ty, $item:ty, $f:expr) => {
                impl<$($g)*> Iterator for $name {
                    type Item = $item;
                    fn next(&mut self) -> Option<$item> { self.it.next().map($f) }
                    fn size_hint(&self) -> (usize, Option<usize>) { self.it.size_hint() }
                }
                impl<$($g)*> ExactSizeIterator for $name {}
                impl<$($g)*> FusedIterator for $name {}
            };
        }
        pub struct Iter<'a, K, V> { it: vec::IntoIter<(&'a K, &'a V)> }
        pub struct IterMut<'a, K, V> { it: vec::IntoIter<(&'a K, &'a mut V)> }
        pub struct IntoIter<K, V> { it: vec::IntoIter<(K, V)> }
        pub struct Keys<'a, K, V> { it: Iter<'a, K, V> }
        pub struct Values<'a, K, V> { it: Iter<'a, K, V> }
        pub struct ValuesMut<'a, K, V> { it: IterMut<'a, K, V> }
        pub struct IntoKeys<K, V> { it: IntoIter<K, V> }
        pub struct IntoValues<K, V> { it: IntoIter<K, V> }
        pub struct Drain<'a, K, V> { it: vec::IntoIter<(K, V)>, m: PhantomData<&'a mut (K, V)> }
        iter!(['a, K, V] Iter<'a, K, V>, (&'a K, &'a V), |x| x);
        iter!(['a, K, V] IterMut<'a, K, V>, (&'a K, &'a mut V), |x| x);
        iter!([K, V] IntoIter<K, V>, (K, V), |x| x);
        iter!(['a, K, V] Keys<'a, K, V>, &'a K, |x| x.0);
        iter!(['a, K, V] Values<'a, K, V>, &'a V, |x| x.1);
        iter!(['a, K, V] ValuesMut<'a, K, V>, &'a mut V, |x| x.1);
        iter!([K, V] IntoKeys<K, V>, K, |x| x.0);
        iter!([K, V] IntoValues<K, V>, V, |x| x.1);
        iter!(['a, K, V] Drain<'a, K, V>, (K, V), |x| x);
        impl<'a, K, V> Clone for Iter<'a, K, V> { fn clone(&self) -> Self { Iter { it: self.it.clone() } } }
        impl<'a, K, V> Clone for Keys<'a, K, V> { fn clone(&self) -> Self { Keys { it: self.it.clone() } } }
        impl<'a, K, V> Clone for Values<'a, K, V> { fn clone(&self) -> Self { Values { it: self.it.clone() } } }
        impl<'a, K, V> fmt::Debug for Keys<'a, K, V> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str("[]") } }
        impl<'a, K, V> fmt::Debug for Values<'a, K, V> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str("[]") } }
        impl<'a, K, V> fmt::Debug for Iter<'a, K, V> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str("[]") } }

        pub enum Entry<'a, K, V> { Occupied(OccupiedEntry<'a, K, V>), Vacant(VacantEntry<'a, K, V>) }
        pub struct OccupiedEntry<'a, K, V> { items: &'a mut Vec<(K, V)>, i: usize, key: Option<K> }
        pub struct VacantEntry<'a, K, V> { items: &'a mut Vec<(K, V)>, key: K }
        impl<'a, K, V> Entry<'a, K, V> {
            pub fn or_insert(self, v: V) -> &'a mut V { self.or_insert_with(|| v) }
            pub fn or_insert_with<F: FnOnce() -> V>(self, f: F) -> &'a mut V {
                match self { Entry::Occupied(e) => e.into_mut(), Entry::Vacant(e) => e.insert(f()) }
            }
            pub fn or_insert_with_key<F: FnOnce(&K) -> V>(self, f: F) -> &'a mut V {
                match self { Entry::Occupied(e) => e.into_mut(), Entry::Vacant(e) => { let v = f(&e.key); e.insert(v) } }
            }
            pub fn or_default(self) -> &'a mut V where V: Default { self.or_insert_with(Default::default) }
            pub fn key(&self) -> &K {
                match self { Entry::Occupied(e) => e.key(), Entry::Vacant(e) => &e.key }
            }
            pub fn and_modify<F: FnOnce(&mut V)>(self, f: F) -> Self {
                match self {
                    Entry::Occupied(mut e) => { f(e.get_mut()); Entry::Occupied(e) }
                    e => e,
                }
            }
            pub fn insert_entry(self, v: V) -> OccupiedEntry<'a, K, V> {
                match self {
                    Entry::Occupied(mut e) => { e.insert(v); e }
                    Entry::Vacant(e) => { let i = e.items.len(); e.items.push((e.key, v)); OccupiedEntry { items: e.items, i, key: None } }
                }
            }
        }
        impl<'a, K, V> OccupiedEntry<'a, K, V> {
            pub fn key(&self) -> &K { &self.items[self.i].0 }
            pub fn get(&self) -> &V { &self.items[self.i].1 }
            pub fn get_mut(&mut self) -> &mut V { &mut self.items[self.i].1 }
            pub fn into_mut(self) -> &'a mut V { &mut self.items[self.i].1 }
            pub fn insert(&mut self, v: V) -> V { core::mem::replace(&mut self.items[self.i].1, v) }
            pub fn remove(self) -> V { self.items.remove(self.i).1 }
            pub fn remove_entry(self) -> (K, V) { self.items.remove(self.i) }
        }
        impl<'a, K, V> VacantEntry<'a, K, V> {
            pub fn key(&self) -> &K { &self.key }
            pub fn into_key(self) -> K { self.key }
            pub fn insert(self, v: V) -> &'a mut V {
                self.items.push((self.key, v));
                let n = self.items.len() - 1;
                &mut self.items[n].1
            }
        }
    }

    pub mod hash_set {
        use super::hash_map::{self, HashMap, RandomState};
        use super::order::shuffle;
        use core::borrow::Borrow;
        use core::fmt;
        use core::hash::Hash;
        use core::iter::FusedIterator;
        use core::marker::PhantomData;
        use core::ops::{BitAnd, BitOr, BitXor, Sub};
        use core::prelude::rust_2021::*;
        use real::vec::{self, Vec};

        pub struct HashSet<T, S = RandomState> { items: Vec<T>, s: PhantomData<S> }
        impl<T> HashSet<T, RandomState> {
            pub fn new() -> Self { Self { items: Vec::new(), s: PhantomData } }
            pub fn with_capacity(n: usize) -> Self {
                if n > 1 << 40 { panic!("capacity overflow") }
                Self { items: Vec::with_capacity(if n > 64 { 64 } else { n }), s: PhantomData }
            }
        }
        impl<T, S> HashSet<T, S> {
            pub fn with_hasher(_: S) -> Self { Self { items: Vec::new(), s: PhantomData } }
            pub fn with_capacity_and_hasher(_: usize, _: S) -> Self { Self { items: Vec::new(), s: PhantomData } }
            pub fn capacity(&self) -> usize { self.items.capacity() }
            pub fn len(&self) -> usize { self.items.len() }
            pub fn is_empty(&self) -> bool { self.items.is_empty() }
            pub fn clear(&mut self) { self.items.clear() }
            pub fn iter(&self) -> Iter<'_, T> {
                let v: Vec<&T> = self.items.iter().collect();
                Iter { it: shuffle(v).into_iter() }
            }
            pub fn drain(&mut self) -> Drain<'_, T> {
                let v = core::mem::take(&mut self.items);
                Drain { it: shuffle(v).into_iter(), m: PhantomData }
            }
            pub fn retain<F: FnMut(&T) -> bool>(&mut self, mut f: F) {
                let v = core::mem::take(&mut self.items);
                for x in shuffle(v) { if f(&x) { self.items.push(x); } }
            }
        }
        impl<T: Eq + Hash, S> HashSet<T, S> {
            fn find<Q: ?Sized + Hash + Eq>(&self, k: &Q) -> Option<usize> where T: Borrow<Q> {
                let mut i = 0;
                while i < self.items.len() {
                    if k == self.items[i].borrow() { return Some(i); }
                    i += 1;
                }
                None
            }
            pub fn reserve(&mut self, _: usize) {}
            pub fn shrink_to_fit(&mut self) {}
            pub fn contains<Q: ?Sized + Hash + Eq>(&self, k: &Q) -> bool where T: Borrow<Q> { self.find(k).is_some() }
            pub fn get<Q: ?Sized + Hash + Eq>(&self, k: &Q) -> Option<&T> where T: Borrow<Q> { self.find(k).map(|i| &self.items[i]) }
            pub fn insert(&mut self, x: T) -> bool {
                if self.find(&x).is_some() { false } else { self.items.push(x); true }
            }
            pub fn replace(&mut self, x: T) -> Option<T> {
                match self.find(&x) {
                    Some(i) => Some(core::mem::replace(&mut self.items[i], x)),
                    None => { self.items.push(x); None }
                }
            }
            pub fn remove<Q: ?Sized + Hash + Eq>(&mut self, k: &Q) -> bool where T: Borrow<Q> { self.take(k).is_some() }
            pub fn take<Q: ?Sized + Hash + Eq>(&mut self, k: &Q) -> Option<T> where T: Borrow<Q> {
                match self.find(k) { Some(i) => Some(self.items.remove(i)), None => None }
            }
            pub fn is_subset(&self, o: &Self) -> bool { self.items.iter().all(|x| o.contains(x)) }
            pub fn is_superset(&self, o: &Self) -> bool { o.is_subset(self) }
            pub fn is_disjoint(&self, o: &Self) -> bool { !self.items.iter().any(|x| o.contains(x)) }
            pub fn union<'a>(&'a self, o: &'a Self) -> Iter<'a, T> {
                let mut v: Vec<&'a T> = self.items.iter().collect();
                v.extend(o.items.iter().filter(|x| !self.contains(*x)));
                Iter { it: shuffle(v).into_iter() }
            }
            pub fn intersection<'a>(&'a self, o: &'a Self) -> Iter<'a, T> {
                let v: Vec<&'a T> = self.items.iter().filter(|x| o.contains(*x)).collect();
                Iter { it: shuffle(v).into_iter() }
            }
            pub fn difference<'a>(&'a self, o: &'a Self) -> Iter<'a, T> {
                let v: Vec<&'a T> = self.items.iter().filter(|x| !o.contains(*x)).collect();
                Iter { it: shuffle(v).into_iter() }
            }
            pub fn symmetric_difference<'a>(&'a self, o: &'a Self) -> Iter<'a, T> {
                let mut v: Vec<&'a T> = self.items.iter().filter(|x| !o.contains(*x)).collect();
                v.extend(o.items.iter().filter(|x| !self.contains(*x)));
                Iter { it: shuffle(v).into_iter() }
            }
        }
        macro_rules! op {
            ($tr:ident, $f:ident, $m:ident) => {
                impl<T: Eq + Hash + Clone, S: Default> $tr<&HashSet<T, S>> for &HashSet<T, S> {
                    type Output = HashSet<T, S>;
                    fn $f(self, o: &HashSet<T, S>) -> HashSet<T, S> { self.$m(o).cloned().collect() }
                }
            };
        }
        op!(BitOr, bitor, union);
        op!(BitAnd, bitand, intersection);
        op!(Sub, sub, difference);
        op!(BitXor, bitxor, symmetric_difference);
        impl<T: Clone, S> Clone for HashSet<T, S> { fn clone(&self) -> Self { Self { items: self.items.clone(), s: PhantomData } } }
        impl<T, S> Default for HashSet<T, S> { fn default() -> Self { Self { items: Vec::new(), s: PhantomData } } }
        impl<T: fmt::Debug, S> fmt::Debug for HashSet<T, S> {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str("{}") }
        }
        impl<T: Eq + Hash, S> PartialEq for HashSet<T, S> {
            fn eq(&self, o: &Self) -> bool { self.len() == o.len() && self.items.iter().all(|x| o.contains(x)) }
        }
        impl<T: Eq + Hash, S> Eq for HashSet<T, S> {}
        impl<T: Eq + Hash, S> FromIterator<T> for HashSet<T, S> {
            fn from_iter<I: IntoIterator<Item = T>>(it: I) -> Self {
                let mut s = Self::default();
                for x in it { s.insert(x); }
                s
            }
        }
        impl<T: Eq + Hash, const N: usize> From<[T; N]> for HashSet<T, RandomState> {
            fn from(a: [T; N]) -> Self { Self::from_iter(a) }
        }
        impl<T: Eq + Hash, S> Extend<T> for HashSet<T, S> {
            fn extend<I: IntoIterator<Item = T>>(&mut self, it: I) { for x in it { self.insert(x); } }
        }
        impl<'a, T: Eq + Hash + Copy + 'a, S> Extend<&'a T> for HashSet<T, S> {
            fn extend<I: IntoIterator<Item = &'a T>>(&mut self, it: I) { for x in it { self.insert(*x); } }
        }
        impl<T, S> IntoIterator for HashSet<T, S> {
            type Item = T;
            type IntoIter = IntoIter<T>;
            fn into_iter(self) -> IntoIter<T> { IntoIter { it: shuffle(self.items).into_iter() } }
        }
        impl<'a, T, S> IntoIterator for &'a HashSet<T, S> {
            type Item = &'a T;
            type IntoIter = Iter<'a, T>;
            fn into_iter(self) -> Iter<'a, T> { self.iter() }
        }
        macro_rules! iter {
            ([$($g:tt)*] $name:ty, $item:ty) => {
                impl<$($g)*> Iterator for $name {
                    type Item = $item;
                    fn next(&mut self) -> Option<$item> { self.it.next() }
                    fn size_hint(&self) -> (usize, Option<usize>) { self.it.size_hint() }
                }
                impl<$($g)*> ExactSizeIterator for $name {}
                impl<$($g)*> FusedIterator for $name {}
            };
        }
        pub struct Iter<'a, T> { it: vec::IntoIter<&'a T> }
        pub struct IntoIter<T> { it: vec::IntoIter<T> }
        pub struct Drain<'a, T> { it: vec::IntoIter<T>, m: PhantomData<&'a mut T> }
        iter!(['a, T] Iter<'a, T>, &'a T);
        iter!([T] IntoIter<T>, T);
        iter!(['a, T] Drain<'a, T>, T);
        impl<'a, T> Clone for Iter<'a, T> { fn clone(&self) -> Self { Iter { it: self.it.clone() } } }
    }
}
