// ---- sails_rs::collections::HashMap: the finite map it stands for (assumed contracts)
#[verifier::external_body] #[verifier::reject_recursive_types(K)] #[verifier::reject_recursive_types(V)] pub struct HMap<K, V> { _k: core::marker::PhantomData<K>, _v: core::marker::PhantomData<V> }
impl<K, V> HMap<K, V> {
    pub uninterp spec fn m(&self) -> Map<K, V>;
    #[verifier::external_body] pub fn default() -> (r: HMap<K, V>) ensures r.m() == Map::<K, V>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn new() -> (r: HMap<K, V>) ensures r.m() == Map::<K, V>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn get(&self, k: &K) -> (r: Option<&V>) ensures match r { Some(v) => self.m().dom().contains(*k) && *v == self.m()[*k], None => !self.m().dom().contains(*k) } { unimplemented!() }
    #[verifier::external_body] pub fn contains_key(&self, k: &K) -> (r: bool) ensures r == self.m().dom().contains(*k) { unimplemented!() }
    #[verifier::external_body] pub fn insert(&mut self, k: K, v: V) -> (r: Option<V>) ensures final(self).m() == old(self).m().insert(k, v), match r { Some(x) => old(self).m().dom().contains(k) && x == old(self).m()[k], None => !old(self).m().dom().contains(k) } { unimplemented!() }
    #[verifier::external_body] pub fn remove(&mut self, k: &K) -> (r: Option<V>) ensures final(self).m() == old(self).m().remove(*k), match r { Some(x) => old(self).m().dom().contains(*k) && x == old(self).m()[*k], None => !old(self).m().dom().contains(*k) && *final(self) == *old(self) } { unimplemented!() }
    #[verifier::external_body] pub fn is_empty(&self) -> (r: bool) ensures r == self.m().dom().is_empty() { unimplemented!() }
    /// entry(k).or_insert(v)
    #[verifier::external_body] pub fn ventry(&mut self, k: K, v: V) -> (r: &mut V) ensures *r == (if old(self).m().dom().contains(k) { old(self).m()[k] } else { v }), final(self).m() == old(self).m().insert(k, *final(r)) { unimplemented!() }
    #[verifier::external_body] pub fn get_mut(&mut self, k: &K) -> (r: Option<&mut V>) ensures match r { Some(v) => old(self).m().dom().contains(*k) && *v == old(self).m()[*k] && final(self).m() == old(self).m().insert(*k, *final(v)), None => !old(self).m().dom().contains(*k) && *final(self) == *old(self) } { unimplemented!() }
}
impl<K, V> HMap<K, V> {
    /// the entries, each once, in some order
    #[verifier::external_body] pub fn vpairs(&self) -> (r: Vec<(K, V)>) ensures entries_of(self.m(), r@) { unimplemented!() }
}
pub open spec fn entries_of<K, V>(m: Map<K, V>, s: Seq<(K, V)>) -> bool {
    &&& forall|i: int| #![trigger s[i]] 0 <= i < s.len() ==> m.dom().contains(s[i].0) && m[s[i].0] == s[i].1
    &&& forall|i: int, j: int| #![trigger s[i], s[j]] 0 <= i < s.len() && 0 <= j < s.len() && i != j ==> s[i].0 != s[j].0
    &&& forall|k: K| #[trigger] m.dom().contains(k) ==> exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0 == k
}
impl<K, V> Clone for HMap<K, V> { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r.m() == self.m() { unimplemented!() } }
pub trait VOrDefault<T> { fn vunwrap_or_default(self) -> (r: T); }
pub assume_specification<'a, T> [ Option::<&T>::copied ] (o: Option<&'a T>) -> (r: Option<T>) where T: Copy ensures r == (match o { Some(x) => Some(*x), None => None });
pub assume_specification [ u128::checked_shl ] (a: u128, n: u32) -> (r: Option<u128>) ensures r == (if n < 128 { Some((a << (n as u128)) as u128) } else { None });
