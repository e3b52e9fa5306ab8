// TRUSTED: std hash maps and sets keyed by strings, pairs of strings or plain values behave as finite maps of the
// characters (values) of their keys; `HashMap`/`HashSet` in the source are read as these types.
#[verifier::external_body]
#[verifier::accept_recursive_types(V)]
pub struct StrMap<V> { m: std::collections::HashMap<String, V> }
impl<V> StrMap<V> {
    pub uninterp spec fn view(&self) -> Map<Seq<char>, V>;
    #[verifier::external_body] pub fn new() -> (r: Self) ensures r@ == Map::<Seq<char>, V>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn get(&self, k: &str) -> (r: Option<&V>)
        ensures r is Some == self@.contains_key(k@), r matches Some(v) ==> *v == self@[k@] { unimplemented!() }
    #[verifier::external_body] pub fn contains_key(&self, k: &str) -> (r: bool) ensures r == self@.contains_key(k@) { unimplemented!() }
    #[verifier::external_body] pub fn insert(&mut self, k: String, v: V) -> (r: Option<V>) ensures final(self)@ == old(self)@.insert(k@, v) { unimplemented!() }
    #[verifier::external_body] pub fn remove(&mut self, k: &str) -> (r: Option<V>) ensures final(self)@ == old(self)@.remove(k@) { unimplemented!() }
    #[verifier::external_body] pub fn vx_or_insert(&mut self, k: String, v: V) -> (r: &mut V)
        ensures final(self)@ == old(self)@.insert(k@, *final(r)), *r == (if old(self)@.contains_key(k@) { old(self)@[k@] } else { v }) { unimplemented!() }
}
#[verifier::external_body]
pub struct StrSet { m: std::collections::HashSet<String> }
impl StrSet {
    pub uninterp spec fn view(&self) -> Set<Seq<char>>;
    #[verifier::external_body] pub fn new() -> (r: Self) ensures r@ == Set::<Seq<char>>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn contains(&self, k: &str) -> (r: bool) ensures r == self@.contains(k@) { unimplemented!() }
    #[verifier::external_body] pub fn is_empty(&self) -> (r: bool) ensures r == (self@ == Set::<Seq<char>>::empty()) { unimplemented!() }
    #[verifier::external_body] pub fn insert(&mut self, k: String) -> (r: bool) ensures final(self)@ == old(self)@.insert(k@), r == !old(self)@.contains(k@) { unimplemented!() }
}
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::accept_recursive_types(V)]
pub struct PlainMap<K, V> { m: std::collections::HashMap<K, V> }
impl<K, V> PlainMap<K, V> {
    pub uninterp spec fn view(&self) -> Map<K, V>;
    #[verifier::external_body] pub fn new() -> (r: Self) ensures r@ == Map::<K, V>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn get(&self, k: &K) -> (r: Option<&V>)
        ensures r is Some == self@.contains_key(*k), r matches Some(v) ==> *v == self@[*k] { unimplemented!() }
    #[verifier::external_body] pub fn contains_key(&self, k: &K) -> (r: bool) ensures r == self@.contains_key(*k) { unimplemented!() }
    #[verifier::external_body] pub fn insert(&mut self, k: K, v: V) -> (r: Option<V>) ensures final(self)@ == old(self)@.insert(k, v) { unimplemented!() }
    #[verifier::external_body] pub fn vx_or_default(&mut self, k: K) -> (r: &mut V) where V: VxDefault
        ensures final(self)@ == old(self)@.insert(k, *final(r)), old(self)@.contains_key(k) ==> *r == old(self)@[k], !old(self)@.contains_key(k) ==> r.is_default() { unimplemented!() }
}
pub trait VxDefault: Sized { spec fn is_default(&self) -> bool; }
impl<T> VxDefault for Vec<T> { open spec fn is_default(&self) -> bool { self@.len() == 0 } }
pub assume_specification<'a, T: Copy>[std::option::Option::<&'a T>::copied](o: Option<&'a T>) -> (r: Option<T>)
    ensures r == (match o { Some(x) => Some(*x), None => None });
pub trait VxNew: Sized { spec fn is_new(&self) -> bool; }
impl<V> VxNew for StrMap<V> { open spec fn is_new(&self) -> bool { self@ == Map::<Seq<char>, V>::empty() } }
impl<K, V> VxNew for PlainMap<K, V> { open spec fn is_new(&self) -> bool { self@ == Map::<K, V>::empty() } }
#[verifier::external_body]
pub fn vx_new<T: VxNew>() -> (r: T) ensures r.is_new() { unimplemented!() }
pub trait VxCloneFrom: Sized { fn vx_clone_from(&mut self, o: &Self) ensures *final(self) == *o; }
impl VxCloneFrom for String { #[verifier::external_body] fn vx_clone_from(&mut self, o: &String) { unimplemented!() } }
//@gsub `.clone_from(` => `.vx_clone_from(`
pub assume_specification<T: Default>[std::mem::take](d: &mut T) -> (r: T) ensures r == *old(d);
