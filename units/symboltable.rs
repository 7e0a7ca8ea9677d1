// Verus unit: the table of symbols (values and their numbers)
#![allow(unused)]
use vstd::prelude::*;
use std::sync::Arc;
verus! {
global size_of usize == 8;
#[derive(Debug)]
pub enum GraphAnnisCoreError { SymbolTableOverflow, Other }
pub type Result<T> = std::result::Result<T, GraphAnnisCoreError>;

// ---- contracts assumed for dependencies ---------------------------------------------------------
/// rustc_hash::FxHashMap, std HashMap with another hasher; keys are compared by value (Arc<T> is transparent)
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
pub struct FxHashMap<K, V> { x: std::collections::HashMap<K, V> }
impl<T> FxHashMap<Arc<T>, usize> {
    pub uninterp spec fn view(&self) -> Map<T, usize>;
    #[verifier::external_body]
    pub fn default() -> (r: Self) ensures r.view() == Map::<T, usize>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn clear(&mut self) ensures final(self).view() == Map::<T, usize>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn reserve(&mut self, n: usize) ensures final(self).view() == old(self).view() { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: Arc<T>, v: usize) -> (r: Option<usize>) ensures final(self).view() == old(self).view().insert(*k, v) { unimplemented!() }
    #[verifier::external_body]
    pub fn remove(&mut self, k: &Arc<T>) -> (r: Option<usize>) ensures final(self).view() == old(self).view().remove(**k) { unimplemented!() }
    #[verifier::external_body]
    pub fn get(&self, k: &T) -> (r: Option<&usize>)
        ensures r is None <==> !self.view().dom().contains(*k), r matches Some(v) ==> *v == self.view()[*k],
    { unimplemented!() }
}
#[verifier::external_body]
pub fn arc_ref<T>(x: &Arc<T>) -> (r: &T) ensures *r == **x { unimplemented!() }
#[verifier::external_body]
pub fn clone_slot<T>(x: &Option<Arc<T>>) -> (r: Option<Arc<T>>) ensures r == *x { unimplemented!() }
#[verifier::external_body]
pub fn arc<T>(x: T) -> (r: Arc<T>) ensures *r == x { Arc::new(x) }

// ---- specification ----------------------------------------------------------------------------
#[verifier::reject_recursive_types(T)]
//@item src=core/src/annostorage/symboltable.rs item="struct SymbolTable"
//@rewrite (?m)^    ([a-z]\w*): => pub $1:
//@rewrite (?m)^\s*#\[serde.*$ =>
//@rewrite where\s+T:[^,]*, => 

pub open spec fn slot<T>(v: Seq<Option<Arc<T>>>, i: int) -> Option<T> { match v[i] { Some(a) => Some(*a), None => None } }
impl<T> SymbolTable<T> {
    /// the number of every value is the slot which holds it, free slots are listed once and are free
    pub open spec fn wf(&self) -> bool {
        &&& forall|v: T| #![trigger self.by_value.view().dom().contains(v)] self.by_value.view().dom().contains(v) ==>
            self.by_value.view()[v] < self.by_id@.len() && slot(self.by_id@, self.by_value.view()[v] as int) == Some(v)
        &&& forall|i: int| #![trigger self.by_id@[i]] 0 <= i < self.by_id@.len() && self.by_id@[i] is Some ==>
            self.by_value.view().dom().contains(*self.by_id@[i]->0) && self.by_value.view()[*self.by_id@[i]->0] == i
        &&& forall|i: int| #![trigger self.empty_slots@[i]] 0 <= i < self.empty_slots@.len() ==>
            self.empty_slots@[i] < self.by_id@.len() && self.by_id@[self.empty_slots@[i] as int] is None
        &&& forall|i: int, j: int| #![trigger self.empty_slots@[i], self.empty_slots@[j]] 0 <= i < j < self.empty_slots@.len() ==> self.empty_slots@[i] != self.empty_slots@[j]
    }
    /// the map from values to numbers
    pub open spec fn sym(&self) -> Map<T, usize> { self.by_value.view() }
    /// what slot `id` holds
    pub open spec fn val(&self, id: usize) -> Option<T> { if id < self.by_id@.len() { slot(self.by_id@, id as int) } else { None } }
}
/// in a consistent table the two directions are inverse to each other, so two values never share a number
pub proof fn lemma_inverse<T>(s: SymbolTable<T>, v: T, id: usize)
    requires s.wf(),
    ensures s.val(id) == Some(v) <==> s.sym().dom().contains(v) && s.sym()[v] == id,
{ if s.val(id) == Some(v) { assert(s.by_id@[id as int] is Some); } }

// ---- the code ---------------------------------------------------------------------------------
//@inlined insert len push pop contains
impl<T> SymbolTable<T> {
//@fn src=core/src/annostorage/symboltable.rs item=SymbolTable::new
//@rewrite HashMap::default => FxHashMap::default
//@rewrite Vec::default\(\) => Vec::new()
//@spec
    ensures ret.wf(), ret.sym() == Map::<T, usize>::empty(), forall|id: usize| ret.val(id) is None,
//@end
//@fn src=core/src/annostorage/symboltable.rs item=SymbolTable::insert_shared
//@spec
    requires old(self).wf(),
    ensures
        final(self).wf(),
        ret matches Ok(id) ==> final(self).sym() == old(self).sym().insert(*val, id),
        ret.is_ok() && old(self).sym().dom().contains(*val) ==> final(self).sym() == old(self).sym(),
        ret.is_err() ==> final(self).sym() == old(self).sym(),
        forall|id: usize| #![trigger final(self).val(id)] (ret.is_err() || old(self).val(id) is Some) ==> final(self).val(id) == old(self).val(id),
        ret matches Ok(id) ==> final(self).val(id) == Some(*val),
//@at fn_start
    let ghost s0 = *self;
    proof {
        assert(s0.sym().dom().contains(*val) ==> s0.sym().insert(*val, s0.sym()[*val]) =~= s0.sym());
        if s0.empty_slots@.len() > 0 { assert(s0.empty_slots@.last() == s0.empty_slots@[s0.empty_slots@.len() - 1]); }
    }
//@end
//@fn src=core/src/annostorage/symboltable.rs item=SymbolTable::insert
//@rewrite Arc::from\(val\) => arc(val)
//@spec
    requires old(self).wf(),
    ensures
        final(self).wf(),
        ret matches Ok(id) ==> final(self).sym() == old(self).sym().insert(val, id),
        ret.is_ok() && old(self).sym().dom().contains(val) ==> final(self).sym() == old(self).sym(),
        ret.is_err() ==> final(self).sym() == old(self).sym(),
        forall|id: usize| #![trigger final(self).val(id)] (ret.is_err() || old(self).val(id) is Some) ==> final(self).val(id) == old(self).val(id),
        ret matches Ok(id) ==> final(self).val(id) == Some(val),
//@end
//@fn src=core/src/annostorage/symboltable.rs item=SymbolTable::remove
//@rewrite self\.by_id\[symbol\]\.clone\(\) => clone_slot(&self.by_id[symbol])
//@spec
    requires old(self).wf(),
    ensures
        final(self).wf(),
        (match ret { Some(v) => old(self).val(symbol) == Some(*v), None => old(self).val(symbol) is None }),
        final(self).sym() == (match old(self).val(symbol) { Some(v) => old(self).sym().remove(v), None => old(self).sym() }),
        forall|id: usize| #![trigger final(self).val(id)] final(self).val(id) == (if id == symbol { None } else { old(self).val(id) }),
//@at fn_start
    let ghost s0 = *self;
    proof { if symbol < s0.by_id@.len() { assert(s0.by_id@.update(symbol as int, s0.by_id@[symbol as int]) =~= s0.by_id@); assert(s0.by_id@[symbol as int] is None ==> s0.by_id@.update(symbol as int, None) =~= s0.by_id@); } }
//@end
//@fn src=core/src/annostorage/symboltable.rs item=SymbolTable::get_value
//@spec
    ensures (match ret { Some(v) => self.val(id) == Some(*v), None => self.val(id) is None }),
//@end
//@fn src=core/src/annostorage/symboltable.rs item=SymbolTable::get_value_ref
//@rewrite val\.as_ref\(\) => arc_ref(val)
//@spec
    ensures (match ret { Some(v) => self.val(id) == Some(*v), None => self.val(id) is None }),
//@end
//@fn src=core/src/annostorage/symboltable.rs item=SymbolTable::get_symbol
//@rewrite self\.by_value\.get\(val\)\.copied\(\) => match self.by_value.get(val) { Some(x) => Some(*x), None => None }
//@spec
    ensures
        ret is None <==> !self.sym().dom().contains(*val),
        ret matches Some(i) ==> i == self.sym()[*val],
//@end
//@fn src=core/src/annostorage/symboltable.rs item=SymbolTable::clear
//@spec
    ensures final(self).wf(), final(self).sym() == Map::<T, usize>::empty(), forall|id: usize| final(self).val(id) is None,
//@end
//@fn src=core/src/annostorage/symboltable.rs item=SymbolTable::after_deserialization
//@spec
    // reading back a saved table leaves the map of values empty and everything else as it was in a consistent table
    requires old(self).by_value.view() == Map::<T, usize>::empty(), exists|m: FxHashMap<Arc<T>, usize>| #[trigger] (SymbolTable { by_value: m, by_id: old(self).by_id, empty_slots: old(self).empty_slots }).wf(),
    ensures final(self).wf(), final(self).by_id@ == old(self).by_id@, final(self).empty_slots@ == old(self).empty_slots@,
//@at fn_start
    let ghost s0 = *self;
    let ghost m0 = choose|m: FxHashMap<Arc<T>, usize>| #[trigger] (SymbolTable { by_value: m, by_id: old(self).by_id, empty_slots: old(self).empty_slots }).wf();
    let ghost t0 = SymbolTable { by_value: m0, by_id: s0.by_id, empty_slots: s0.empty_slots };
    proof { assert(t0.wf()); }
//@loop 0
    invariant
        t0.wf(), self.by_id@ == t0.by_id@, self.empty_slots@ == t0.empty_slots@,
        forall|v: T| #![trigger self.by_value.view().dom().contains(v)] self.by_value.view().dom().contains(v) ==>
            self.by_value.view()[v] < i && slot(self.by_id@, self.by_value.view()[v] as int) == Some(v),
        forall|j: int| #![trigger self.by_id@[j]] 0 <= j < i && self.by_id@[j] is Some ==>
            self.by_value.view().dom().contains(*self.by_id@[j]->0) && self.by_value.view()[*self.by_id@[j]->0] == j,
//@at loop_start 0
    proof { assert(t0.by_id@[i as int] is Some ==> t0.by_value.view()[*t0.by_id@[i as int]->0] == i); }
//@end
}
}
