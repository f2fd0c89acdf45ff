//! DashMap over one lock: an insertion-ordered table with reader/writer guards. Asking for a
//! conflicting guard while one is held is what deadlocks in the real map when both keys share a shard.
use std::borrow::Borrow;
use std::cell::{Cell, UnsafeCell};
use std::hash::Hash;
use std::ops::{Deref, DerefMut};
use tokio::sched::{nopoint, point, NoPoint};

pub struct DashMap<K, V> {
    t: UnsafeCell<Vec<(K, V)>>,
    /// -1: written, >0: that many readers
    st: Cell<i32>,
}
unsafe impl<K: Send, V: Send> Send for DashMap<K, V> {}
unsafe impl<K: Send + Sync, V: Send + Sync> Sync for DashMap<K, V> {}
pub struct Lock<'a> {
    st: &'a Cell<i32>,
    w: bool,
    n: Option<NoPoint>,
}
unsafe impl Send for Lock<'_> {}
unsafe impl Sync for Lock<'_> {}
impl Drop for Lock<'_> {
    fn drop(&mut self) {
        self.st.set(if self.w { 0 } else { self.st.get() - 1 });
        self.n = None;
        point();
    }
}
impl<K, V> std::fmt::Debug for DashMap<K, V> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("DashMap")
    }
}
impl<K, V> Default for DashMap<K, V> {
    fn default() -> Self {
        DashMap { t: UnsafeCell::new(vec![]), st: Cell::new(0) }
    }
}
pub mod mapref {
    pub mod one {
        pub use crate::{Ref, RefMut};
    }
    pub mod entry {
        pub use crate::{Entry, OccupiedEntry, VacantEntry};
    }
    pub mod multiple {
        pub use crate::{RefMulti, RefMutMulti};
    }
}
pub struct Ref<'a, K, V> {
    _l: Lock<'a>,
    k: &'a K,
    v: &'a V,
}
pub struct RefMut<'a, K, V> {
    _l: Lock<'a>,
    k: &'a K,
    v: &'a mut V,
}
pub type RefMulti<'a, K, V> = Multi<'a, K, V>;
pub type RefMutMulti<'a, K, V> = MutMulti<'a, K, V>;
pub struct Multi<'a, K, V> {
    k: &'a K,
    v: &'a V,
}
pub struct MutMulti<'a, K, V> {
    k: &'a K,
    v: &'a mut V,
}
macro_rules! acc { ($n:ident) => {
    impl<'a, K, V> $n<'a, K, V> {
        pub fn key(&self) -> &K { self.k }
        pub fn value(&self) -> &V { self.v }
        pub fn pair(&self) -> (&K, &V) { (self.k, self.v) }
    }
    impl<'a, K, V> Deref for $n<'a, K, V> { type Target = V; fn deref(&self) -> &V { self.v } }
} }
acc!(Ref);
acc!(RefMut);
acc!(Multi);
acc!(MutMulti);
macro_rules! accm { ($n:ident) => {
    impl<'a, K, V> $n<'a, K, V> {
        pub fn value_mut(&mut self) -> &mut V { self.v }
    }
    impl<'a, K, V> DerefMut for $n<'a, K, V> { fn deref_mut(&mut self) -> &mut V { self.v } }
} }
accm!(RefMut);
accm!(MutMulti);
impl<K: Eq + Hash, V> DashMap<K, V> {
    pub fn new() -> Self {
        Self::default()
    }
    fn lock(&self, w: bool) -> Lock<'_> {
        point();
        if self.st.get() < 0 || (w && self.st.get() != 0) {
            nd::fail("deadlock: a DashMap is entered while one of its guards is held");
        }
        self.st.set(if w { -1 } else { self.st.get() + 1 });
        Lock { st: &self.st, w, n: Some(nopoint()) }
    }
    #[allow(clippy::mut_from_ref)]
    fn t(&self) -> &mut Vec<(K, V)> {
        unsafe { &mut *self.t.get() }
    }
    fn find<Q: Eq + ?Sized>(&self, k: &Q) -> Option<usize>
    where
        K: Borrow<Q>,
    {
        self.t().iter().position(|x| x.0.borrow() == k)
    }
    pub fn insert(&self, k: K, v: V) -> Option<V> {
        let _l = self.lock(true);
        match self.find(&k) {
            Some(i) => Some(std::mem::replace(&mut self.t()[i].1, v)),
            None => {
                self.t().push((k, v));
                None
            }
        }
    }
    pub fn remove<Q: Eq + Hash + ?Sized>(&self, k: &Q) -> Option<(K, V)>
    where
        K: Borrow<Q>,
    {
        let _l = self.lock(true);
        self.find(k).map(|i| self.t().remove(i))
    }
    pub fn remove_if<Q: Eq + Hash + ?Sized>(&self, k: &Q, f: impl FnOnce(&K, &V) -> bool) -> Option<(K, V)>
    where
        K: Borrow<Q>,
    {
        let _l = self.lock(true);
        let i = self.find(k)?;
        let (a, b) = &self.t()[i];
        f(a, b).then(|| self.t().remove(i))
    }
    pub fn get<Q: Eq + Hash + ?Sized>(&self, k: &Q) -> Option<Ref<'_, K, V>>
    where
        K: Borrow<Q>,
    {
        let _l = self.lock(false);
        let i = self.find(k)?;
        let (k, v) = &self.t()[i];
        Some(Ref { _l, k, v })
    }
    pub fn get_mut<Q: Eq + Hash + ?Sized>(&self, k: &Q) -> Option<RefMut<'_, K, V>>
    where
        K: Borrow<Q>,
    {
        let _l = self.lock(true);
        let i = self.find(k)?;
        let (k, v) = &mut self.t()[i];
        Some(RefMut { _l, k, v })
    }
    pub fn contains_key<Q: Eq + Hash + ?Sized>(&self, k: &Q) -> bool
    where
        K: Borrow<Q>,
    {
        let _l = self.lock(false);
        self.find(k).is_some()
    }
    pub fn len(&self) -> usize {
        let _l = self.lock(false);
        self.t().len()
    }
    pub fn is_empty(&self) -> bool {
        self.len() == 0
    }
    pub fn clear(&self) {
        let _l = self.lock(true);
        self.t().clear()
    }
    pub fn retain(&self, mut f: impl FnMut(&K, &mut V) -> bool) {
        let _l = self.lock(true);
        self.t().retain_mut(|(k, v)| f(k, v))
    }
    pub fn alter<Q: Eq + Hash + ?Sized>(&self, k: &Q, f: impl FnOnce(&K, V) -> V)
    where
        K: Borrow<Q>,
    {
        let _l = self.lock(true);
        if let Some(i) = self.find(k) {
            let (k, v) = self.t().remove(i);
            let v = f(&k, v);
            self.t().insert(i, (k, v));
        }
    }
    pub fn iter(&self) -> Iter<'_, K, V> {
        Iter { _l: self.lock(false), it: self.t().iter() }
    }
    pub fn iter_mut(&self) -> IterMut<'_, K, V> {
        IterMut { _l: self.lock(true), it: self.t().iter_mut() }
    }
    pub fn entry(&self, k: K) -> Entry<'_, K, V> {
        let l = self.lock(true);
        match self.find(&k) {
            Some(i) => {
                let (k, v) = &mut self.t()[i];
                Entry::Occupied(OccupiedEntry { r: RefMut { _l: l, k, v } })
            }
            None => Entry::Vacant(VacantEntry { m: self, l, k }),
        }
    }
}
pub struct Iter<'a, K, V> {
    _l: Lock<'a>,
    it: std::slice::Iter<'a, (K, V)>,
}
impl<'a, K, V> Iterator for Iter<'a, K, V> {
    type Item = Multi<'a, K, V>;
    fn next(&mut self) -> Option<Self::Item> {
        self.it.next().map(|(k, v)| Multi { k, v })
    }
}
pub struct IterMut<'a, K, V> {
    _l: Lock<'a>,
    it: std::slice::IterMut<'a, (K, V)>,
}
impl<'a, K, V> Iterator for IterMut<'a, K, V> {
    type Item = MutMulti<'a, K, V>;
    fn next(&mut self) -> Option<Self::Item> {
        self.it.next().map(|(k, v)| MutMulti { k, v })
    }
}
impl<'a, K: Eq + Hash, V> IntoIterator for &'a DashMap<K, V> {
    type Item = Multi<'a, K, V>;
    type IntoIter = Iter<'a, K, V>;
    fn into_iter(self) -> Iter<'a, K, V> {
        self.iter()
    }
}
pub mod entry {
    pub use crate::Entry;
}
pub enum Entry<'a, K, V> {
    Occupied(OccupiedEntry<'a, K, V>),
    Vacant(VacantEntry<'a, K, V>),
}
pub struct OccupiedEntry<'a, K, V> {
    r: RefMut<'a, K, V>,
}
pub struct VacantEntry<'a, K, V> {
    m: &'a DashMap<K, V>,
    l: Lock<'a>,
    k: K,
}
impl<'a, K, V> OccupiedEntry<'a, K, V> {
    pub fn get(&self) -> &V {
        self.r.v
    }
    pub fn get_mut(&mut self) -> &mut V {
        self.r.v
    }
    pub fn key(&self) -> &K {
        self.r.k
    }
    pub fn insert(&mut self, v: V) -> V {
        std::mem::replace(self.r.v, v)
    }
    pub fn into_ref(self) -> RefMut<'a, K, V> {
        self.r
    }
}
impl<'a, K: Eq + Hash, V> OccupiedEntry<'a, K, V> {
    pub fn remove(self) -> V
    where
        K: Clone,
    {
        unimplemented!("OccupiedEntry::remove is not modelled")
    }
}
impl<'a, K: Eq + Hash, V> VacantEntry<'a, K, V> {
    pub fn key(&self) -> &K {
        &self.k
    }
    pub fn insert(self, v: V) -> RefMut<'a, K, V> {
        let t = self.m.t();
        t.push((self.k, v));
        let (k, v) = t.last_mut().unwrap();
        RefMut { _l: self.l, k, v }
    }
}
impl<'a, K: Eq + Hash, V> Entry<'a, K, V> {
    pub fn or_insert_with(self, f: impl FnOnce() -> V) -> RefMut<'a, K, V> {
        match self {
            Entry::Occupied(o) => o.r,
            Entry::Vacant(v) => v.insert(f()),
        }
    }
    pub fn or_insert(self, v: V) -> RefMut<'a, K, V> {
        self.or_insert_with(|| v)
    }
    pub fn or_default(self) -> RefMut<'a, K, V>
    where
        V: Default,
    {
        self.or_insert_with(V::default)
    }
    pub fn and_modify(mut self, f: impl FnOnce(&mut V)) -> Self {
        if let Entry::Occupied(o) = &mut self {
            f(o.r.v)
        }
        self
    }
}
