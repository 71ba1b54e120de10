use std::collections::HashMap;
use std::hash::Hash;
pub trait Integeriser {
    type Item;
    fn integerise(&mut self, value: Self::Item) -> usize;
    fn find_key(&self, value: &Self::Item) -> Option<usize>;
    fn find_value(&self, key: usize) -> Option<&Self::Item>;
    fn size(&self) -> usize;
    fn values(&self) -> &Vec<Self::Item>;
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct HashIntegeriser<T: Eq + Hash> { map: Vec<T>, rmap: HashMap<T, usize> }
impl<T: Eq+Hash+Clone> HashIntegeriser<T> { pub fn new() -> Self { HashIntegeriser{ map: Vec::new(), rmap: HashMap::new() } } }
impl<T: Eq+Hash+Clone> Default for HashIntegeriser<T> { fn default() -> Self { Self::new() } }
impl<T: Eq+Hash+Clone> Integeriser for HashIntegeriser<T> {
    type Item = T;
    fn integerise(&mut self, value: T) -> usize {
        if let Some(&k) = self.rmap.get(&value) { return k; }
        let k = self.map.len(); self.map.push(value.clone()); self.rmap.insert(value, k); k
    }
    fn find_key(&self, value: &T) -> Option<usize> { self.rmap.get(value).cloned() }
    fn find_value(&self, key: usize) -> Option<&T> { self.map.get(key) }
    fn size(&self) -> usize { self.map.len() }
    fn values(&self) -> &Vec<T> { &self.map }
}
