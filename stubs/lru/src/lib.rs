//! Stand-in for `lru` 0.8: a least-recently-used map of bounded size.
use std::{borrow::Borrow, fmt, hash::Hash, num::NonZeroUsize};

pub struct LruCache<K, V> {
    /// least recently used first
    entries: Vec<(K, V)>,
    cap: NonZeroUsize,
}

impl<K: Hash + Eq, V> LruCache<K, V> {
    pub fn new(cap: NonZeroUsize) -> Self {
        Self { entries: vec![], cap }
    }
    fn find<Q: Eq + ?Sized>(&self, k: &Q) -> Option<usize>
    where
        K: Borrow<Q>,
    {
        self.entries.iter().position(|(e, _)| e.borrow() == k)
    }
    fn touch(&mut self, i: usize) {
        let e = self.entries.remove(i);
        self.entries.push(e);
    }
    pub fn put(&mut self, k: K, v: V) -> Option<V> {
        if let Some(i) = self.find(&k) {
            self.touch(i);
            let last = self.entries.last_mut().unwrap();
            return Some(std::mem::replace(&mut last.1, v));
        }
        if self.entries.len() == self.cap.get() {
            self.entries.remove(0);
        }
        self.entries.push((k, v));
        None
    }
    pub fn push(&mut self, k: K, v: V) -> Option<(K, V)> {
        if let Some(i) = self.find(&k) {
            let old = self.entries.remove(i);
            self.entries.push((k, v));
            return Some(old);
        }
        let evicted = (self.entries.len() == self.cap.get()).then(|| self.entries.remove(0));
        self.entries.push((k, v));
        evicted
    }
    pub fn get<Q: Eq + Hash + ?Sized>(&mut self, k: &Q) -> Option<&V>
    where
        K: Borrow<Q>,
    {
        let i = self.find(k)?;
        self.touch(i);
        self.entries.last().map(|e| &e.1)
    }
    pub fn get_mut<Q: Eq + Hash + ?Sized>(&mut self, k: &Q) -> Option<&mut V>
    where
        K: Borrow<Q>,
    {
        let i = self.find(k)?;
        self.touch(i);
        self.entries.last_mut().map(|e| &mut e.1)
    }
    pub fn peek<Q: Eq + Hash + ?Sized>(&self, k: &Q) -> Option<&V>
    where
        K: Borrow<Q>,
    {
        self.find(k).map(|i| &self.entries[i].1)
    }
    pub fn contains<Q: Eq + Hash + ?Sized>(&self, k: &Q) -> bool
    where
        K: Borrow<Q>,
    {
        self.find(k).is_some()
    }
    pub fn pop<Q: Eq + Hash + ?Sized>(&mut self, k: &Q) -> Option<V>
    where
        K: Borrow<Q>,
    {
        let i = self.find(k)?;
        Some(self.entries.remove(i).1)
    }
    pub fn pop_lru(&mut self) -> Option<(K, V)> {
        (!self.entries.is_empty()).then(|| self.entries.remove(0))
    }
    pub fn len(&self) -> usize {
        self.entries.len()
    }
    pub fn is_empty(&self) -> bool {
        self.entries.is_empty()
    }
    pub fn cap(&self) -> NonZeroUsize {
        self.cap
    }
    pub fn clear(&mut self) {
        self.entries.clear()
    }
    pub fn iter(&self) -> impl Iterator<Item = (&K, &V)> {
        self.entries.iter().rev().map(|(k, v)| (k, v))
    }
}

impl<K, V> fmt::Debug for LruCache<K, V> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.debug_struct("LruCache")
            .field("len", &self.entries.len())
            .field("cap", &self.cap)
            .finish()
    }
}
