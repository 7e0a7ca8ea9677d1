// shared: node ids, errors, a set stub, the edge container a storage offers
pub type NodeID = u64;
#[derive(Debug)]
pub struct GraphAnnisCoreError { pub code: u64 }
pub type Result<T> = std::result::Result<T, GraphAnnisCoreError>;

/// rustc_hash::FxHashSet, std HashSet with another hasher
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct FxHashSet<T> { x: std::collections::HashSet<T> }
impl<T> FxHashSet<T> {
    pub uninterp spec fn view(&self) -> Set<T>;
    #[verifier::external_body]
    pub fn default() -> (r: Self) ensures r.view() == Set::<T>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, x: T) -> (r: bool)
        ensures final(self).view() == old(self).view().insert(x), r == !old(self).view().contains(x),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn remove(&mut self, x: &T) -> (r: bool)
        ensures final(self).view() == old(self).view().remove(*x), r == old(self).view().contains(*x),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn contains(&self, x: &T) -> (r: bool)
        ensures r == self.view().contains(*x),
    { unimplemented!() }
}

/// What an edge container lists (an iterator over results in the code, a vector of results here).
pub trait EdgeContainer {
    spec fn out_seq(&self, n: NodeID) -> Seq<NodeID>;
    spec fn in_seq(&self, n: NodeID) -> Seq<NodeID>;
    fn get_outgoing_edges(&self, node: NodeID) -> (r: Vec<Result<NodeID>>)
        ensures lists(r@, self.out_seq(node));
    fn get_ingoing_edges(&self, node: NodeID) -> (r: Vec<Result<NodeID>>)
        ensures lists(r@, self.in_seq(node));
}
pub open spec fn lists(r: Seq<Result<NodeID>>, s: Seq<NodeID>) -> bool {
    r.len() == s.len() && forall|i: int| #![trigger r[i]] 0 <= i < r.len() ==> (r[i] matches Ok(x) ==> x == s[i])
}
