pub use ::std::collections::*;
pub use hash_map::HashMap;
pub use hash_set::HashSet;

macro_rules! iterator {
    ($name:ident<$($l:lifetime,)? $($p:ident),*>, $item:ty) => {
        pub struct $name<$($l,)? $($p),*>(pub(crate) ::std::vec::IntoIter<$item>);
        impl<$($l,)? $($p),*> Iterator for $name<$($l,)? $($p),*> {
            type Item = $item;
            fn next(&mut self) -> Option<$item> { self.0.next() }
            fn size_hint(&self) -> (usize, Option<usize>) { self.0.size_hint() }
        }
        impl<$($l,)? $($p),*> ExactSizeIterator for $name<$($l,)? $($p),*> {}
        impl<$($l,)? $($p),*> ::std::iter::FusedIterator for $name<$($l,)? $($p),*> {}
    };
}
macro_rules! copied {
    ($($name:ident<$($p:ident),*>),*) => { $(
        impl<'a, $($p),*> Clone for $name<'a, $($p),*> { fn clone(&self) -> Self { $name(self.0.clone()) } }
        impl<'a, $($p: ::std::fmt::Debug),*> ::std::fmt::Debug for $name<'a, $($p),*> { fn fmt(&self, f: &mut ::std::fmt::Formatter<'_>) -> ::std::fmt::Result { f.debug_list().entries(self.clone()).finish() } }
    )* };
}

pub mod hash_map {
    pub use ::std::collections::hash_map::{DefaultHasher, Entry, OccupiedEntry, VacantEntry};
    use ::std::collections::hash_map::HashMap as Real;
    use crate::order::Order;
    use ::std::borrow::Borrow;
    use ::std::fmt;
    use ::std::hash::{BuildHasher, Hash};
    use ::std::ops::{Deref, DerefMut, Index};

    /// Hashes with fixed keys; the orders come from the plan.
    #[derive(Clone, Debug, Default)]
    pub struct RandomState;
    impl RandomState { pub fn new() -> RandomState { RandomState } }
    impl BuildHasher for RandomState { type Hasher = DefaultHasher; fn build_hasher(&self) -> DefaultHasher { DefaultHasher::new() } }

    pub struct HashMap<K, V, S = RandomState> { real: Real<K, V, S>, order: Order }

    iterator!(Iter<'a, K, V>, (&'a K, &'a V));
    iterator!(IterMut<'a, K, V>, (&'a K, &'a mut V));
    iterator!(IntoIter<K, V>, (K, V));
    copied!(Iter<K, V>);
    macro_rules! part { ($name:ident, $item:ty, $at:tt, $dbg:ident) => {
        pub struct $name<'a, K, V>(::std::vec::IntoIter<(&'a K, &'a V)>);
        impl<'a, K, V> Iterator for $name<'a, K, V> {
            type Item = $item;
            fn next(&mut self) -> Option<$item> { self.0.next().map(|e| e.$at) }
            fn size_hint(&self) -> (usize, Option<usize>) { self.0.size_hint() }
        }
        impl<'a, K, V> ExactSizeIterator for $name<'a, K, V> {}
        impl<'a, K, V> Clone for $name<'a, K, V> { fn clone(&self) -> Self { $name(self.0.clone()) } }
        impl<'a, K: fmt::Debug, V: fmt::Debug> fmt::Debug for $name<'a, K, V> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.debug_list().entries(self.0.as_slice().iter().map(|e| e.$at)).finish() } }
    } }
    part!(Keys, &'a K, 0, K);
    part!(Values, &'a V, 1, V);
    pub type Drain<'a, K, V> = IntoIter<K, V>;
    pub type IntoKeys<K, V> = ::std::iter::Map<IntoIter<K, V>, fn((K, V)) -> K>;
    pub type IntoValues<K, V> = ::std::iter::Map<IntoIter<K, V>, fn((K, V)) -> V>;

    impl<K, V> HashMap<K, V, RandomState> {
        pub fn new() -> Self { Self::default() }
        pub fn with_capacity(_: usize) -> Self { Self::default() }
    }
    impl<K, V, S> HashMap<K, V, S> {
        pub fn with_hasher(h: S) -> Self { HashMap { real: Real::with_hasher(h), order: Order::new() } }
        pub fn with_capacity_and_hasher(_: usize, h: S) -> Self { Self::with_hasher(h) }
        pub fn iter(&self) -> Iter<'_, K, V> { Iter(self.order.apply(self.real.iter().collect()).into_iter()) }
        pub fn iter_mut(&mut self) -> IterMut<'_, K, V> { IterMut(self.order.apply(self.real.iter_mut().collect()).into_iter()) }
        pub fn keys(&self) -> Keys<'_, K, V> { Keys(self.iter().0) }
        pub fn values(&self) -> Values<'_, K, V> { Values(self.iter().0) }
        pub fn values_mut(&mut self) -> impl Iterator<Item = &mut V> + ExactSizeIterator { self.order.apply(self.real.values_mut().collect::<Vec<_>>()).into_iter() }
        pub fn into_keys(self) -> impl Iterator<Item = K> + ExactSizeIterator { self.order.apply(self.real.into_keys().collect::<Vec<_>>()).into_iter() }
        pub fn into_values(self) -> impl Iterator<Item = V> + ExactSizeIterator { self.order.apply(self.real.into_values().collect::<Vec<_>>()).into_iter() }
        pub fn drain(&mut self) -> IntoIter<K, V> { IntoIter(self.order.apply(self.real.drain().collect()).into_iter()) }
    }
    impl<K: Eq + Hash, V, S: BuildHasher> HashMap<K, V, S> {
        // called through DerefMut they would borrow the table before their arguments are evaluated
        pub fn insert(&mut self, k: K, v: V) -> Option<V> { self.real.insert(k, v) }
        pub fn entry(&mut self, k: K) -> ::std::collections::hash_map::Entry<'_, K, V> { self.real.entry(k) }
        pub fn remove<Q: Eq + Hash + ?Sized>(&mut self, k: &Q) -> Option<V> where K: Borrow<Q> { self.real.remove(k) }
        pub fn remove_entry<Q: Eq + Hash + ?Sized>(&mut self, k: &Q) -> Option<(K, V)> where K: Borrow<Q> { self.real.remove_entry(k) }
        pub fn get_mut<Q: Eq + Hash + ?Sized>(&mut self, k: &Q) -> Option<&mut V> where K: Borrow<Q> { self.real.get_mut(k) }
        pub fn reserve(&mut self, n: usize) { self.real.reserve(n) }
        pub fn retain(&mut self, mut f: impl FnMut(&K, &mut V) -> bool) {
            let all: Vec<(K, V)> = self.order.apply(self.real.drain().collect());
            for (k, mut v) in all { if f(&k, &mut v) { self.real.insert(k, v); } }
        }
    }
    impl<K, V, S> Deref for HashMap<K, V, S> { type Target = Real<K, V, S>; fn deref(&self) -> &Real<K, V, S> { &self.real } }
    impl<K, V, S> DerefMut for HashMap<K, V, S> { fn deref_mut(&mut self) -> &mut Real<K, V, S> { &mut self.real } }
    impl<K, V, S: Default> Default for HashMap<K, V, S> { fn default() -> Self { HashMap { real: Real::default(), order: Order::new() } } }
    impl<K: Clone, V: Clone, S: Clone> Clone for HashMap<K, V, S> { fn clone(&self) -> Self { HashMap { real: self.real.clone(), order: self.order.clone() } } }
    impl<K: fmt::Debug, V: fmt::Debug, S> fmt::Debug for HashMap<K, V, S> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.debug_map().entries(self.iter()).finish() } }
    impl<K: Eq + Hash, V: PartialEq, S: BuildHasher> PartialEq for HashMap<K, V, S> { fn eq(&self, o: &Self) -> bool { self.real == o.real } }
    impl<K: Eq + Hash, V: Eq, S: BuildHasher> Eq for HashMap<K, V, S> {}
    impl<K: Eq + Hash + Borrow<Q>, Q: Eq + Hash + ?Sized, V, S: BuildHasher> Index<&Q> for HashMap<K, V, S> { type Output = V; fn index(&self, k: &Q) -> &V { &self.real[k] } }
    impl<K: Eq + Hash, V, S: BuildHasher + Default> FromIterator<(K, V)> for HashMap<K, V, S> { fn from_iter<I: IntoIterator<Item = (K, V)>>(i: I) -> Self { HashMap { real: i.into_iter().collect(), order: Order::new() } } }
    impl<K: Eq + Hash, V, const N: usize> From<[(K, V); N]> for HashMap<K, V, RandomState> { fn from(a: [(K, V); N]) -> Self { a.into_iter().collect() } }
    impl<K: Eq + Hash, V, S: BuildHasher> Extend<(K, V)> for HashMap<K, V, S> { fn extend<I: IntoIterator<Item = (K, V)>>(&mut self, i: I) { self.real.extend(i) } }
    impl<'a, K: Eq + Hash + Copy, V: Copy, S: BuildHasher> Extend<(&'a K, &'a V)> for HashMap<K, V, S> { fn extend<I: IntoIterator<Item = (&'a K, &'a V)>>(&mut self, i: I) { self.real.extend(i) } }
    impl<K, V, S> IntoIterator for HashMap<K, V, S> { type Item = (K, V); type IntoIter = IntoIter<K, V>; fn into_iter(self) -> IntoIter<K, V> { IntoIter(self.order.apply(self.real.into_iter().collect()).into_iter()) } }
    impl<'a, K, V, S> IntoIterator for &'a HashMap<K, V, S> { type Item = (&'a K, &'a V); type IntoIter = Iter<'a, K, V>; fn into_iter(self) -> Iter<'a, K, V> { self.iter() } }
    impl<'a, K, V, S> IntoIterator for &'a mut HashMap<K, V, S> { type Item = (&'a K, &'a mut V); type IntoIter = IterMut<'a, K, V>; fn into_iter(self) -> IterMut<'a, K, V> { self.iter_mut() } }
}

pub mod hash_set {
    use super::hash_map::RandomState;
    use ::std::collections::hash_set::HashSet as Real;
    use crate::order::Order;
    use ::std::fmt;
    use ::std::hash::{BuildHasher, Hash};
    use ::std::ops::{BitAnd, BitOr, BitXor, Deref, DerefMut, Sub};

    pub struct HashSet<T, S = RandomState> { real: Real<T, S>, order: Order }
    iterator!(Iter<'a, T>, &'a T);
    iterator!(IntoIter<T>, T);
    copied!(Iter<T>);
    pub type Drain<'a, T> = IntoIter<T>;

    impl<T> HashSet<T, RandomState> {
        pub fn new() -> Self { Self::default() }
        pub fn with_capacity(_: usize) -> Self { Self::default() }
    }
    impl<T, S> HashSet<T, S> {
        pub fn with_hasher(h: S) -> Self { HashSet { real: Real::with_hasher(h), order: Order::new() } }
        pub fn iter(&self) -> Iter<'_, T> { Iter(self.order.apply(self.real.iter().collect()).into_iter()) }
        pub fn drain(&mut self) -> IntoIter<T> { IntoIter(self.order.apply(self.real.drain().collect()).into_iter()) }
    }
    impl<T: Eq + Hash, S: BuildHasher> HashSet<T, S> {
        pub fn insert(&mut self, t: T) -> bool { self.real.insert(t) }
        pub fn replace(&mut self, t: T) -> Option<T> { self.real.replace(t) }
        pub fn remove<Q: Eq + Hash + ?Sized>(&mut self, t: &Q) -> bool where T: ::std::borrow::Borrow<Q> { self.real.remove(t) }
        pub fn take<Q: Eq + Hash + ?Sized>(&mut self, t: &Q) -> Option<T> where T: ::std::borrow::Borrow<Q> { self.real.take(t) }
        pub fn reserve(&mut self, n: usize) { self.real.reserve(n) }
        pub fn retain(&mut self, mut f: impl FnMut(&T) -> bool) {
            let all: Vec<T> = self.order.apply(self.real.drain().collect());
            for t in all { if f(&t) { self.real.insert(t); } }
        }
        pub fn union<'a>(&'a self, o: &'a HashSet<T, S>) -> Iter<'a, T> { Iter(Order::new().apply(self.real.union(&o.real).collect()).into_iter()) }
        pub fn intersection<'a>(&'a self, o: &'a HashSet<T, S>) -> Iter<'a, T> { Iter(Order::new().apply(self.real.intersection(&o.real).collect()).into_iter()) }
        pub fn difference<'a>(&'a self, o: &'a HashSet<T, S>) -> Iter<'a, T> { Iter(Order::new().apply(self.real.difference(&o.real).collect()).into_iter()) }
        pub fn symmetric_difference<'a>(&'a self, o: &'a HashSet<T, S>) -> Iter<'a, T> { Iter(Order::new().apply(self.real.symmetric_difference(&o.real).collect()).into_iter()) }
    }
    impl<T, S> Deref for HashSet<T, S> { type Target = Real<T, S>; fn deref(&self) -> &Real<T, S> { &self.real } }
    impl<T, S> DerefMut for HashSet<T, S> { fn deref_mut(&mut self) -> &mut Real<T, S> { &mut self.real } }
    impl<T, S: Default> Default for HashSet<T, S> { fn default() -> Self { HashSet { real: Real::default(), order: Order::new() } } }
    impl<T: Clone, S: Clone> Clone for HashSet<T, S> { fn clone(&self) -> Self { HashSet { real: self.real.clone(), order: self.order.clone() } } }
    impl<T: fmt::Debug, S> fmt::Debug for HashSet<T, S> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.debug_set().entries(self.iter()).finish() } }
    impl<T: Eq + Hash, S: BuildHasher> PartialEq for HashSet<T, S> { fn eq(&self, o: &Self) -> bool { self.real == o.real } }
    impl<T: Eq + Hash, S: BuildHasher> Eq for HashSet<T, S> {}
    impl<T: Eq + Hash, S: BuildHasher + Default> FromIterator<T> for HashSet<T, S> { fn from_iter<I: IntoIterator<Item = T>>(i: I) -> Self { HashSet { real: i.into_iter().collect(), order: Order::new() } } }
    impl<T: Eq + Hash, const N: usize> From<[T; N]> for HashSet<T, RandomState> { fn from(a: [T; N]) -> Self { a.into_iter().collect() } }
    impl<T: Eq + Hash, S: BuildHasher> Extend<T> for HashSet<T, S> { fn extend<I: IntoIterator<Item = T>>(&mut self, i: I) { self.real.extend(i) } }
    impl<'a, T: Eq + Hash + Copy, S: BuildHasher> Extend<&'a T> for HashSet<T, S> { fn extend<I: IntoIterator<Item = &'a T>>(&mut self, i: I) { self.real.extend(i) } }
    impl<T, S> IntoIterator for HashSet<T, S> { type Item = T; type IntoIter = IntoIter<T>; fn into_iter(self) -> IntoIter<T> { IntoIter(self.order.apply(self.real.into_iter().collect()).into_iter()) } }
    impl<'a, T, S> IntoIterator for &'a HashSet<T, S> { type Item = &'a T; type IntoIter = Iter<'a, T>; fn into_iter(self) -> Iter<'a, T> { self.iter() } }
    macro_rules! op { ($($op:ident $f:ident $m:ident),*) => { $(
        impl<T: Eq + Hash + Clone, S: BuildHasher + Default> $op<&HashSet<T, S>> for &HashSet<T, S> { type Output = HashSet<T, S>; fn $f(self, o: &HashSet<T, S>) -> HashSet<T, S> { self.real.$m(&o.real).cloned().collect() } }
    )* } }
    op!(BitAnd bitand intersection, BitOr bitor union, BitXor bitxor symmetric_difference, Sub sub difference);
}
