// Verus unit: annotation storage in memory
#![allow(unused)]
use vstd::prelude::*;
use std::sync::Arc;
verus! {
global size_of usize == 8;
#[derive(Debug)]
pub struct GraphAnnisCoreError { pub code: u64 }
pub type Result<T> = std::result::Result<T, GraphAnnisCoreError>;

//@item src=core/src/types.rs item="struct AnnoKey"
//@item src=core/src/types.rs item="struct Annotation"
#[derive(Clone, Copy)]
//@item src=core/src/annostorage/inmemory.rs item="struct SparseAnnotation"
//@rewrite (?m)^    ([a-z]\w*): => pub $1:
//@rewrite (?m)^struct => pub struct

// ---- contracts assumed for dependencies ---------------------------------------------------------
pub mod deps {
use vstd::prelude::*;
use std::sync::Arc;
use super::{Result, GraphAnnisCoreError};
/// what Default::default() gives for a type
pub uninterp spec fn default_of<V>() -> V;
/// std HashMap / BTreeMap; items and keys are compared by value
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
pub struct HashMap<K, V> { x: std::collections::HashMap<K, V> }
pub type BTreeMap<K, V> = HashMap<K, V>;
impl<K, V> HashMap<K, V> {
    pub uninterp spec fn view(&self) -> Map<K, V>;
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r.view() == Map::<K, V>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn default() -> (r: Self) ensures r.view() == Map::<K, V>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn clear(&mut self) ensures final(self).view() == Map::<K, V>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r <==> self.view() == Map::<K, V>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn contains_key(&self, k: &K) -> (r: bool) ensures r == self.view().dom().contains(*k) { unimplemented!() }
    #[verifier::external_body]
    pub fn get(&self, k: &K) -> (r: Option<&V>)
        ensures r is None <==> !self.view().dom().contains(*k), r matches Some(v) ==> *v == self.view()[*k],
    { unimplemented!() }
    #[verifier::external_body]
    pub fn get_mut(&mut self, k: &K) -> (r: Option<&mut V>)
        ensures
            r is None <==> !old(self).view().dom().contains(*k),
            r is None ==> *final(self) == *old(self),
            r matches Some(v) ==> *v == old(self).view()[*k] && final(self).view() == old(self).view().insert(*k, *final(v)),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn entry_or_default(&mut self, k: K) -> (r: &mut V)
        ensures
            *r == (if old(self).view().dom().contains(k) { old(self).view()[k] } else { default_of::<V>() }),
            final(self).view() == old(self).view().insert(k, *final(r)),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn entry_or_insert(&mut self, k: K, d: V) -> (r: &mut V)
        ensures
            *r == (if old(self).view().dom().contains(k) { old(self).view()[k] } else { d }),
            final(self).view() == old(self).view().insert(k, *final(r)),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: K, v: V) -> (r: Option<V>) ensures final(self).view() == old(self).view().insert(k, v) { unimplemented!() }
    #[verifier::external_body]
    pub fn remove(&mut self, k: &K) -> (r: Option<V>)
        ensures
            final(self).view() == old(self).view().remove(*k),
            r is None <==> !old(self).view().dom().contains(*k), r matches Some(v) ==> v == old(self).view()[*k],
    { unimplemented!() }
    /// the values in any order
    #[verifier::external_body]
    pub fn values(&self) -> (r: Vec<&V>)
        ensures
            forall|k: K| #![trigger self.view().dom().contains(k)] self.view().dom().contains(k) ==> exists|i: int| #![trigger r@[i]] 0 <= i < r@.len() && *r@[i] == self.view()[k],
            forall|i: int| #![trigger r@[i]] 0 <= i < r@.len() ==> exists|k: K| #![trigger self.view().dom().contains(k)] self.view().dom().contains(k) && *r@[i] == self.view()[k],
    { unimplemented!() }
}
/// std BTreeSet
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct BTreeSet<T> { x: std::collections::BTreeSet<T> }
impl<T> BTreeSet<T> {
    pub uninterp spec fn view(&self) -> Set<T>;
    #[verifier::external_body]
    pub fn insert(&mut self, x: T) -> (r: bool) ensures final(self).view() == old(self).view().insert(x) { unimplemented!() }
    #[verifier::external_body]
    pub fn remove(&mut self, x: &T) -> (r: bool) ensures final(self).view() == old(self).view().remove(*x) { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r <==> self.view() == Set::<T>::empty() { unimplemented!() }
}

/// core/src/annostorage/symboltable.rs, with the contract proved in the unit `symboltable`
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct SymbolTable<T> { x: T }
impl<T> SymbolTable<T> {
    pub uninterp spec fn wf(&self) -> bool;
    pub uninterp spec fn sym(&self) -> Map<T, usize>;
    pub uninterp spec fn val(&self, id: usize) -> Option<T>;
    #[verifier::external_body]
    pub fn new() -> (ret: Self) ensures ret.wf(), ret.sym() == Map::<T, usize>::empty(), forall|id: usize| ret.val(id) is None { unimplemented!() }
    #[verifier::external_body]
    pub fn clear(&mut self) ensures final(self).wf(), final(self).sym() == Map::<T, usize>::empty(), forall|id: usize| final(self).val(id) is None { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, val: T) -> (ret: Result<usize>)
        requires old(self).wf(),
        ensures
            final(self).wf(),
            ret matches Ok(id) ==> final(self).sym() == old(self).sym().insert(val, id),
            ret.is_ok() && old(self).sym().dom().contains(val) ==> final(self).sym() == old(self).sym(),
            ret.is_err() ==> final(self).sym() == old(self).sym(),
            forall|id: usize| #![trigger final(self).val(id)] (ret.is_err() || old(self).val(id) is Some) ==> final(self).val(id) == old(self).val(id),
            ret matches Ok(id) ==> final(self).val(id) == Some(val),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn remove(&mut self, symbol: usize) -> (ret: Option<Arc<T>>)
        requires old(self).wf(),
        ensures
            final(self).wf(),
            (match ret { Some(v) => old(self).val(symbol) == Some(*v), None => old(self).val(symbol) is None }),
            final(self).sym() == (match old(self).val(symbol) { Some(v) => old(self).sym().remove(v), None => old(self).sym() }),
            forall|id: usize| #![trigger final(self).val(id)] final(self).val(id) == (if id == symbol { None } else { old(self).val(id) }),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn get_value(&self, id: usize) -> (ret: Option<Arc<T>>) ensures (match ret { Some(v) => self.val(id) == Some(*v), None => self.val(id) is None }) { unimplemented!() }
    #[verifier::external_body]
    pub fn get_value_ref(&self, id: usize) -> (ret: Option<&T>) ensures (match ret { Some(v) => self.val(id) == Some(*v), None => self.val(id) is None }) { unimplemented!() }
    #[verifier::external_body]
    pub fn get_symbol(&self, val: &T) -> (ret: Option<usize>)
        ensures ret is None <==> !self.sym().dom().contains(*val), ret matches Some(i) ==> i == self.sym()[*val],
    { unimplemented!() }
}
pub broadcast axiom fn default_vec<V>() ensures #![trigger default_of::<Vec<V>>()] default_of::<Vec<V>>()@ == Seq::<V>::empty();
pub broadcast axiom fn default_set<V>() ensures #![trigger default_of::<BTreeSet<V>>()] default_of::<BTreeSet<V>>().view() == Set::<V>::empty();
pub broadcast axiom fn default_map<K, V>() ensures #![trigger default_of::<HashMap<K, V>>()] default_of::<HashMap<K, V>>().view() == Map::<K, V>::empty();
/// `lemma_inverse` of the unit `symboltable`
pub broadcast axiom fn inverse<T>(s: SymbolTable<T>, v: T, id: usize)
    ensures #![trigger s.val(id), s.sym().dom().contains(v)] s.wf() ==> (s.val(id) == Some(v) <==> s.sym().dom().contains(v) && s.sym()[v] == id);
}
use deps::*;
broadcast use {deps::default_vec, deps::default_set, deps::default_map, deps::inverse};

/// the items: cloning gives an equal item, `<` is a strict total order
#[verifier::external_body]
pub fn clone_of<T>(x: &T) -> (r: T) ensures r == *x { unimplemented!() }
pub uninterp spec fn lt<T>(a: T, b: T) -> bool;
#[verifier::external_body]
pub fn less<T>(a: &T, b: &T) -> (r: bool) ensures r == lt(*a, *b) { unimplemented!() }
pub axiom fn lt_order<T>()
    ensures
        forall|a: T| !#[trigger] lt(a, a),
        forall|a: T, b: T, c: T| #![trigger lt(a, b), lt(b, c)] lt(a, b) && lt(b, c) ==> lt(a, c),
        forall|a: T, b: T| #![trigger lt(a, b)] lt(a, b) || lt(b, a) || a == b;
/// slice::binary_search_by_key on a list sorted by key
#[verifier::external_body]
pub fn search_key(v: &Vec<SparseAnnotation>, k: usize) -> (r: std::result::Result<usize, usize>)
    requires by_key(v@),
    ensures
        r matches Ok(i) ==> i < v@.len() && v@[i as int].key == k,
        r matches Err(i) ==> i <= v@.len() && (forall|j: int| #![trigger v@[j]] 0 <= j < i ==> v@[j].key < k) && (forall|j: int| #![trigger v@[j]] i <= j < v@.len() ==> v@[j].key > k),
{ v.binary_search_by_key(&k, |a| a.key) }
#[verifier::external_body]
pub fn cow<'a>(x: &String) -> (r: String) ensures r == *x { unimplemented!() }

// ---- specification ----------------------------------------------------------------------------
pub open spec fn by_key(s: Seq<SparseAnnotation>) -> bool { forall|i: int, j: int| #![trigger s[i], s[j]] 0 <= i < j < s.len() ==> s[i].key < s[j].key }
pub open spec fn lists(s: Seq<SparseAnnotation>, k: usize, v: usize) -> bool { exists|i: int| #![trigger s[i]] 0 <= i < s.len() && s[i].key == k && s[i].val == v }

pub type ValueItemMap<T> = HashMap<usize, BTreeSet<T>>;
#[verifier::reject_recursive_types(T)]
//@item src=core/src/annostorage/inmemory.rs item="struct AnnoStorageImpl"
//@rewrite (?m)^    (\w+): => pub $1:
//@rewrite <T: Ord \+ Hash \+ Default> => <T>

pub type Model<T> = Map<(T, AnnoKey), String>;
pub open spec fn ba<T>(m: Map<usize, ValueItemMap<T>>, k: usize, v: usize, i: T) -> bool { m.dom().contains(k) && m[k].view().dom().contains(v) && m[k].view()[v].view().contains(i) }
pub open spec fn with_key<T>(m: Model<T>, k: AnnoKey) -> Set<(T, AnnoKey)> { m.dom().filter(|p: (T, AnnoKey)| p.1 == k) }

impl<T> AnnoStorageImpl<T> {
    pub open spec fn list(&self, i: T) -> Seq<SparseAnnotation> { if self.by_container.view().dom().contains(i) { self.by_container.view()[i]@ } else { Seq::empty() } }
    /// item `i` has the annotation with these symbols
    pub open spec fn has(&self, i: T, k: usize, v: usize) -> bool { lists(self.list(i), k, v) }
    /// item `i` has an annotation with a symbol for this key
    pub open spec fn has_key(&self, i: T, key: AnnoKey) -> bool { exists|k: usize, v: usize| #[trigger] self.has(i, k, v) && self.anno_keys.val(k) == Some(key) }
    /// the lists of the items are sorted and not empty, and the index by annotation contains the same
    pub open spec fn indexed(&self) -> bool {
        &&& self.anno_keys.wf() && self.anno_values.wf()
        &&& forall|i: T| #![trigger self.list(i)] by_key(self.list(i))
        &&& forall|i: T| #![trigger self.by_container.view().dom().contains(i)] self.by_container.view().dom().contains(i) ==> self.list(i).len() > 0
        &&& forall|i: T, k: usize, v: usize| #![trigger ba(self.by_anno.view(), k, v, i)] #![trigger self.has(i, k, v)] ba(self.by_anno.view(), k, v, i) <==> self.has(i, k, v)
        &&& compact(self.by_anno.view())
    }
    /// the annotations of the map `m`
    pub open spec fn maps(&self, m: Model<T>) -> bool {
        &&& forall|i: T, k: usize, v: usize| #![trigger self.has(i, k, v)] self.has(i, k, v) ==> self.anno_keys.val(k) is Some && self.anno_values.val(v) is Some
            && m.dom().contains((i, self.anno_keys.val(k)->0)) && m[(i, self.anno_keys.val(k)->0)] == self.anno_values.val(v)->0
        &&& forall|i: T, key: AnnoKey| #![trigger m.dom().contains((i, key))] m.dom().contains((i, key)) ==> self.has_key(i, key)
    }
    pub open spec fn counts(&self, m: Model<T>) -> bool {
        &&& self.total_number_of_annos == m.len()
        &&& forall|key: AnnoKey| #![trigger self.anno_key_sizes.view().dom().contains(key)] self.anno_key_sizes.view().dom().contains(key) <==> with_key(m, key).len() > 0
        &&& forall|key: AnnoKey| #![trigger self.anno_key_sizes.view()[key]] self.anno_key_sizes.view().dom().contains(key) ==> self.anno_key_sizes.view()[key] == with_key(m, key).len()
    }
    /// no item is larger than the largest one
    pub open spec fn largest(&self, m: Model<T>) -> bool {
        forall|i: T, key: AnnoKey| #![trigger m.dom().contains((i, key))] m.dom().contains((i, key)) ==> self.largest_item is Some && !lt(self.largest_item->0, i)
    }
    /// the storage represents the map `m`
    pub open spec fn rep(&self, m: Model<T>) -> bool { self.indexed() && self.maps(m) && self.counts(m) && self.largest(m) }
}
/// the index lists no empty sets
pub open spec fn compact<T>(m: Map<usize, ValueItemMap<T>>) -> bool {
    &&& forall|k: usize| #![trigger m.dom().contains(k)] m.dom().contains(k) ==> m[k].view() != Map::<usize, BTreeSet<T>>::empty()
    &&& forall|k: usize, v: usize| #![trigger m[k].view().dom().contains(v)] m.dom().contains(k) && m[k].view().dom().contains(v) ==> m[k].view()[v].view() != Set::<T>::empty()
}
pub proof fn lemma_empty<T>() ensures forall|key: AnnoKey| #![trigger with_key(Model::<T>::empty(), key)] with_key(Model::<T>::empty(), key).len() == 0
{
    assert forall|key: AnnoKey| #![trigger with_key(Model::<T>::empty(), key)] with_key(Model::<T>::empty(), key).len() == 0 by { assert(with_key(Model::<T>::empty(), key) =~= Set::empty()); }
}
/// symbols which are in use keep their meaning when others are added
pub proof fn lemma_syms<T>(a: AnnoStorageImpl<T>, b: AnnoStorageImpl<T>)
    requires
        b.anno_keys.wf(), b.anno_values.wf(),
        b.by_container.view() == a.by_container.view(), b.by_anno.view() == a.by_anno.view(), b.anno_key_sizes.view() == a.anno_key_sizes.view(), b.largest_item == a.largest_item, b.total_number_of_annos == a.total_number_of_annos,
        forall|id: usize| #![trigger b.anno_keys.val(id)] a.anno_keys.val(id) is Some ==> b.anno_keys.val(id) == a.anno_keys.val(id),
        forall|id: usize| #![trigger b.anno_values.val(id)] a.anno_values.val(id) is Some ==> b.anno_values.val(id) == a.anno_values.val(id),
    ensures forall|m: Model<T>| #![trigger a.rep(m)] a.rep(m) ==> b.rep(m),
{
    assert forall|m: Model<T>| #![trigger a.rep(m)] a.rep(m) implies b.rep(m) by {
        assert forall|i: T| #![trigger b.list(i)] b.list(i) == a.list(i) by {}
        assert forall|i: T| #![trigger b.list(i)] by_key(b.list(i)) by { assert(by_key(a.list(i))); }
        assert forall|i: T| #![trigger b.by_container.view().dom().contains(i)] b.by_container.view().dom().contains(i) implies b.list(i).len() > 0 by { assert(a.list(i).len() > 0); }
        assert forall|i: T, k: usize, v: usize| #![trigger b.has(i, k, v)] b.has(i, k, v) == a.has(i, k, v) by {}
        assert(b.indexed());
        assert forall|i: T, key: AnnoKey| #![trigger m.dom().contains((i, key))] m.dom().contains((i, key)) implies b.has_key(i, key) by {
            assert(a.has_key(i, key));
            let (k, v) = choose|k: usize, v: usize| #[trigger] a.has(i, k, v) && a.anno_keys.val(k) == Some(key);
            assert(b.has(i, k, v) && b.anno_keys.val(k) == Some(key));
        }
    }
}
/// `indexed` and `maps` depend only on the symbols and the two indexes
pub proof fn lemma_same<T>(a: AnnoStorageImpl<T>, b: AnnoStorageImpl<T>, m: Model<T>)
    requires a.by_container == b.by_container, a.by_anno == b.by_anno, a.anno_keys == b.anno_keys, a.anno_values == b.anno_values,
    ensures a.indexed() ==> b.indexed(), a.maps(m) ==> b.maps(m),
{
    assert forall|i: T| #![trigger b.list(i)] b.list(i) == a.list(i) by {}
    assert forall|i: T, k: usize, v: usize| #![trigger b.has(i, k, v)] b.has(i, k, v) == a.has(i, k, v) by {}
    if a.indexed() {
        assert forall|i: T| #![trigger b.list(i)] by_key(b.list(i)) by { assert(by_key(a.list(i))); }
        assert forall|i: T| #![trigger b.by_container.view().dom().contains(i)] b.by_container.view().dom().contains(i) implies b.list(i).len() > 0 by { assert(a.list(i).len() > 0); }
    }
    if a.maps(m) {
        assert forall|i: T, key: AnnoKey| #![trigger m.dom().contains((i, key))] m.dom().contains((i, key)) implies b.has_key(i, key) by {
            assert(a.has_key(i, key));
            let (k, v) = choose|k: usize, v: usize| #[trigger] a.has(i, k, v) && a.anno_keys.val(k) == Some(key);
            assert(b.has(i, k, v) && b.anno_keys.val(k) == Some(key));
        }
    }
}
/// a storage represents at most one map
pub proof fn lemma_unique<T>(s: AnnoStorageImpl<T>, m1: Model<T>, m2: Model<T>)
    requires s.rep(m1), s.rep(m2),
    ensures m1 == m2,
{
    assert forall|i: T, key: AnnoKey| #![trigger m1.dom().contains((i, key))] m1.dom().contains((i, key)) implies m2.dom().contains((i, key)) && m1[(i, key)] == m2[(i, key)] by {
        assert(s.has_key(i, key));
        let (k, v) = choose|k: usize, v: usize| #[trigger] s.has(i, k, v) && s.anno_keys.val(k) == Some(key);
    }
    assert forall|i: T, key: AnnoKey| #![trigger m2.dom().contains((i, key))] m2.dom().contains((i, key)) implies m1.dom().contains((i, key)) by {
        assert(s.has_key(i, key));
        let (k, v) = choose|k: usize, v: usize| #[trigger] s.has(i, k, v) && s.anno_keys.val(k) == Some(key);
    }
    assert forall|p: (T, AnnoKey)| m1.dom().contains(p) <==> m2.dom().contains(p) by { assert(p == (p.0, p.1)); }
    assert forall|p: (T, AnnoKey)| #![trigger m1[p]] m1.dom().contains(p) implies m1[p] == m2[p] by { assert(m1.dom().contains((p.0, p.1))); }
    assert(m1 =~= m2);
}
pub proof fn lemma_all<T>(s: AnnoStorageImpl<T>, m: Model<T>) ensures s.rep(m) ==> forall|m1: Model<T>| #![trigger s.rep(m1)] s.rep(m1) ==> m1 == m
{
    if s.rep(m) { assert forall|m1: Model<T>| #![trigger s.rep(m1)] s.rep(m1) implies m1 == m by { lemma_unique(s, m, m1); } }
}
pub proof fn lemma_sizes<T>(m: Model<T>) ensures forall|k: AnnoKey| #![trigger with_key(m, k)] with_key(m, k).len() <= m.len()
{
    assert forall|k: AnnoKey| #![trigger with_key(m, k)] with_key(m, k).len() <= m.len() by { vstd::set_lib::lemma_len_subset(with_key(m, k), m.dom()); }
}
pub open spec fn ba_put<T>(b: Map<usize, ValueItemMap<T>>, c: Map<usize, ValueItemMap<T>>, a: SparseAnnotation, item: T) -> bool {
    forall|k: usize, v: usize, i: T| #![trigger ba(c, k, v, i)] ba(c, k, v, i) <==> ba(b, k, v, i) || (k == a.key && v == a.val && i == item)
}
pub proof fn lemma_ba_put<T>(b: Map<usize, ValueItemMap<T>>, c: Map<usize, ValueItemMap<T>>, a: SparseAnnotation, item: T)
    requires
        compact(b),
        ({
            let inner = if b.dom().contains(a.key) { b[a.key].view() } else { Map::<usize, BTreeSet<T>>::empty() };
            let set = if inner.dom().contains(a.val) { inner[a.val].view() } else { Set::<T>::empty() };
            &&& c.dom() == b.dom().insert(a.key)
            &&& forall|k: usize| #![trigger c[k]] k != a.key && b.dom().contains(k) ==> c[k] == b[k]
            &&& c[a.key].view().dom() == inner.dom().insert(a.val)
            &&& forall|v: usize| #![trigger c[a.key].view()[v]] v != a.val && inner.dom().contains(v) ==> c[a.key].view()[v] == inner[v]
            &&& c[a.key].view()[a.val].view() == set.insert(item)
        }),
    ensures compact(c), ba_put(b, c, a, item),
{
    assert(c[a.key].view().dom().contains(a.val));
    assert(c[a.key].view() != Map::<usize, BTreeSet<T>>::empty());
    assert(c[a.key].view()[a.val].view().contains(item));
    assert forall|k: usize| #![trigger c.dom().contains(k)] c.dom().contains(k) implies c[k].view() != Map::<usize, BTreeSet<T>>::empty() by { if k != a.key { assert(b.dom().contains(k)); } }
    assert forall|k: usize, v: usize| #![trigger c[k].view().dom().contains(v)] c.dom().contains(k) && c[k].view().dom().contains(v) implies c[k].view()[v].view() != Set::<T>::empty() by {
        if k != a.key { assert(b[k].view().dom().contains(v)); } else if v != a.val { assert(b[k].view().dom().contains(v)); }
    }
}
pub proof fn lemma_count_put<T>(m: Model<T>, i: T, key: AnnoKey, v: String)
    ensures ({
        let n = m.insert((i, key), v);
        let new = !m.dom().contains((i, key));
        &&& n.len() == m.len() + if new { 1int } else { 0 }
        &&& forall|k: AnnoKey| #![trigger with_key(n, k)] with_key(n, k).len() == with_key(m, k).len() + if new && k == key { 1int } else { 0 }
    }),
{
    let n = m.insert((i, key), v);
    let new = !m.dom().contains((i, key));
    assert(n.dom() =~= m.dom().insert((i, key)));
    assert forall|k: AnnoKey| #![trigger with_key(n, k)] with_key(n, k).len() == with_key(m, k).len() + if new && k == key { 1int } else { 0 } by {
        if k == key { assert(with_key(n, k) =~= with_key(m, k).insert((i, key))); assert(with_key(m, k).contains((i, key)) == !new); } else { assert(with_key(n, k) =~= with_key(m, k)); }
    }
}
pub proof fn lemma_count_del<T>(m: Model<T>, i: T, key: AnnoKey)
    requires m.dom().contains((i, key)),
    ensures
        m.remove((i, key)).len() == m.len() - 1, with_key(m, key).len() > 0,
        forall|k: AnnoKey| #![trigger with_key(m.remove((i, key)), k)] with_key(m.remove((i, key)), k).len() == with_key(m, k).len() - if k == key { 1int } else { 0 },
{
    let n = m.remove((i, key));
    assert(n.dom() =~= m.dom().remove((i, key)));
    assert(with_key(m, key).contains((i, key)));
    assert forall|k: AnnoKey| #![trigger with_key(n, k)] with_key(n, k).len() == with_key(m, k).len() - if k == key { 1int } else { 0 } by {
        if k == key { assert(with_key(n, k) =~= with_key(m, k).remove((i, key))); } else { assert(with_key(n, k) =~= with_key(m, k)); }
    }
}
/// replacing or adding the entry for a key in a sorted list
pub proof fn lemma_list_put(s: Seq<SparseAnnotation>, idx: int, a: SparseAnnotation)
    requires by_key(s),
    ensures
        0 <= idx < s.len() && s[idx].key == a.key ==> by_key(s.update(idx, a)) && (forall|k: usize, v: usize| #![trigger lists(s.update(idx, a), k, v)] lists(s.update(idx, a), k, v) <==> (if k == a.key { v == a.val } else { lists(s, k, v) }))
            && (forall|v: usize| #![trigger lists(s, a.key, v)] lists(s, a.key, v) <==> v == s[idx].val),
        0 <= idx <= s.len() && (forall|j: int| #![trigger s[j]] 0 <= j < idx ==> s[j].key < a.key) && (forall|j: int| #![trigger s[j]] idx <= j < s.len() ==> s[j].key > a.key) ==>
            by_key(s.insert(idx, a)) && (forall|k: usize, v: usize| #![trigger lists(s.insert(idx, a), k, v)] lists(s.insert(idx, a), k, v) <==> (if k == a.key { v == a.val } else { lists(s, k, v) }))
            && (forall|v: usize| #![trigger lists(s, a.key, v)] !lists(s, a.key, v)),
{
    if 0 <= idx < s.len() && s[idx].key == a.key {
        let t = s.update(idx, a);
        assert forall|k: usize, v: usize| #![trigger lists(t, k, v)] lists(t, k, v) <==> (if k == a.key { v == a.val } else { lists(s, k, v) }) by {
            if lists(t, k, v) { let j = choose|j: int| #![trigger t[j]] 0 <= j < t.len() && t[j].key == k && t[j].val == v; if j != idx { assert(s[j] == t[j]); } }
            if k == a.key && v == a.val { assert(t[idx].key == k); }
            if k != a.key && lists(s, k, v) { let j = choose|j: int| #![trigger s[j]] 0 <= j < s.len() && s[j].key == k && s[j].val == v; assert(t[j] == s[j]); }
        }
    }
    if 0 <= idx <= s.len() && (forall|j: int| #![trigger s[j]] 0 <= j < idx ==> s[j].key < a.key) && (forall|j: int| #![trigger s[j]] idx <= j < s.len() ==> s[j].key > a.key) {
        let t = s.insert(idx, a);
        assert forall|k: usize, v: usize| #![trigger lists(t, k, v)] lists(t, k, v) <==> (if k == a.key { v == a.val } else { lists(s, k, v) }) by {
            if lists(t, k, v) { let j = choose|j: int| #![trigger t[j]] 0 <= j < t.len() && t[j].key == k && t[j].val == v; if j < idx { assert(s[j] == t[j]); } else if j > idx { assert(s[j - 1] == t[j]); } }
            if k == a.key && v == a.val { assert(t[idx].key == k); }
            if k != a.key && lists(s, k, v) { let j = choose|j: int| #![trigger s[j]] 0 <= j < s.len() && s[j].key == k && s[j].val == v; if j < idx { assert(t[j] == s[j]); } else { assert(t[j + 1] == s[j]); } }
        }
    }
}
pub proof fn lemma_list_del(s: Seq<SparseAnnotation>, idx: int)
    requires by_key(s), 0 <= idx < s.len(),
    ensures
        by_key(s.remove(idx)),
        forall|k: usize, v: usize| #![trigger lists(s.remove(idx), k, v)] lists(s.remove(idx), k, v) <==> k != s[idx].key && lists(s, k, v),
        forall|v: usize| #![trigger lists(s, s[idx].key, v)] lists(s, s[idx].key, v) <==> v == s[idx].val,
{
    let t = s.remove(idx);
    assert forall|k: usize, v: usize| #![trigger lists(t, k, v)] lists(t, k, v) <==> k != s[idx].key && lists(s, k, v) by {
        if lists(t, k, v) { let j = choose|j: int| #![trigger t[j]] 0 <= j < t.len() && t[j].key == k && t[j].val == v; if j < idx { assert(s[j] == t[j]); } else { assert(s[j + 1] == t[j]); } }
        if k != s[idx].key && lists(s, k, v) { let j = choose|j: int| #![trigger s[j]] 0 <= j < s.len() && s[j].key == k && s[j].val == v; if j < idx { assert(t[j] == s[j]); } else { assert(t[j - 1] == s[j]); } }
    }
}
/// the storage `f` has the annotation `a` at `item` and otherwise what `s` has
pub open spec fn put_of<T>(s: AnnoStorageImpl<T>, f: AnnoStorageImpl<T>, item: T, a: SparseAnnotation) -> bool {
    forall|i: T, k: usize, v: usize| #![trigger f.has(i, k, v)] f.has(i, k, v) <==> (if i == item && k == a.key { v == a.val } else { s.has(i, k, v) })
}
pub proof fn lemma_maps_put<T>(s: AnnoStorageImpl<T>, f: AnnoStorageImpl<T>, m: Model<T>, item: T, a: SparseAnnotation, key: AnnoKey, val: String)
    requires
        s.maps(m), f.anno_keys == s.anno_keys, f.anno_values == s.anno_values, s.anno_keys.wf(), put_of(s, f, item, a),
        s.anno_keys.val(a.key) == Some(key), s.anno_values.val(a.val) == Some(val),
    ensures f.maps(m.insert((item, key), val)), m.dom().contains((item, key)) <==> exists|v: usize| #[trigger] s.has(item, a.key, v),
{
    let n = m.insert((item, key), val);
    assert forall|k: usize| #![trigger s.anno_keys.val(k)] s.anno_keys.val(k) == Some(key) implies k == a.key by { inverse(s.anno_keys, key, k); inverse(s.anno_keys, key, a.key); }
    assert forall|i: T, k: usize, v: usize| #![trigger f.has(i, k, v)] f.has(i, k, v) implies f.anno_keys.val(k) is Some && f.anno_values.val(v) is Some
        && n.dom().contains((i, f.anno_keys.val(k)->0)) && n[(i, f.anno_keys.val(k)->0)] == f.anno_values.val(v)->0 by { if !(i == item && k == a.key) { assert(s.has(i, k, v)); } }
    assert forall|i: T, key2: AnnoKey| #![trigger n.dom().contains((i, key2))] n.dom().contains((i, key2)) implies f.has_key(i, key2) by {
        if i == item && key2 == key { assert(f.has(i, a.key, a.val)); } else {
            assert(m.dom().contains((i, key2)));
            assert(s.has_key(i, key2));
            let (k, v) = choose|k: usize, v: usize| #[trigger] s.has(i, k, v) && s.anno_keys.val(k) == Some(key2);
            assert(f.has(i, k, v));
        }
    }
    if m.dom().contains((item, key)) {
        assert(s.has_key(item, key));
        let (k, v) = choose|k: usize, v: usize| #[trigger] s.has(item, k, v) && s.anno_keys.val(k) == Some(key);
        assert(s.has(item, a.key, v));
    }
}
/// looking up the annotation of an item
pub proof fn lemma_get<T>(s: AnnoStorageImpl<T>, m: Model<T>, item: T, key: AnnoKey)
    requires s.rep(m),
    ensures
        by_key(s.list(item)),
        m.dom().contains((item, key)) ==> s.anno_keys.sym().dom().contains(key) && s.list(item).len() > 0 && exists|i: int| #![trigger s.list(item)[i]] 0 <= i < s.list(item).len() && s.list(item)[i].key == s.anno_keys.sym()[key],
        forall|i: int| #![trigger s.list(item)[i]] 0 <= i < s.list(item).len() && s.anno_keys.sym().dom().contains(key) && s.list(item)[i].key == s.anno_keys.sym()[key] ==> m.dom().contains((item, key)) && s.anno_values.val(s.list(item)[i].val) == Some(m[(item, key)]),
{
    if m.dom().contains((item, key)) {
        assert(s.has_key(item, key));
        let (k, v) = choose|k: usize, v: usize| #[trigger] s.has(item, k, v) && s.anno_keys.val(k) == Some(key);
        inverse(s.anno_keys, key, k);
    }
    assert forall|i: int| #![trigger s.list(item)[i]] 0 <= i < s.list(item).len() && s.anno_keys.sym().dom().contains(key) && s.list(item)[i].key == s.anno_keys.sym()[key] implies m.dom().contains((item, key)) && s.anno_values.val(s.list(item)[i].val) == Some(m[(item, key)]) by {
        let a = s.list(item)[i];
        inverse(s.anno_keys, key, a.key);
        assert(s.has(item, a.key, a.val));
    }
}

// ---- the code ---------------------------------------------------------------------------------
//@inlined new clear insert remove get push len is_empty contains_key values get_value get_value_ref get_symbol default
impl<T> AnnoStorageImpl<T> {
//@fn src=core/src/annostorage/inmemory.rs item=AnnoStorageImpl::new
//@rewrite (?s)\s*BTreeMap::new\(\) => HashMap::new()
//@spec
    ensures ret.rep(Model::<T>::empty()),
//@at fn_start
    proof { lemma_empty::<T>(); }
//@end
//@fn src=core/src/annostorage/inmemory.rs item=AnnoStorageImpl::clear_internal
//@spec
    ensures final(self).rep(Model::<T>::empty()),
//@at fn_start
    proof { lemma_empty::<T>(); }
//@end
//@fn src=core/src/annostorage/inmemory.rs item=AnnoStorageImpl::create_sparse_anno
//@spec
    requires old(self).anno_keys.wf(), old(self).anno_values.wf(),
    ensures
        final(self).anno_keys.wf(), final(self).anno_values.wf(),
        final(self).by_container == old(self).by_container, final(self).by_anno == old(self).by_anno, final(self).anno_key_sizes == old(self).anno_key_sizes,
        final(self).largest_item == old(self).largest_item, final(self).total_number_of_annos == old(self).total_number_of_annos,
        // symbols which are in use keep their meaning
        forall|id: usize| #![trigger final(self).anno_keys.val(id)] old(self).anno_keys.val(id) is Some ==> final(self).anno_keys.val(id) == old(self).anno_keys.val(id),
        forall|id: usize| #![trigger final(self).anno_values.val(id)] old(self).anno_values.val(id) is Some ==> final(self).anno_values.val(id) == old(self).anno_values.val(id),
        ret matches Ok(a) ==> final(self).anno_keys.val(a.key) == Some(orig.key) && final(self).anno_values.val(a.val) == Some(orig.val),
//@end
//@fn src=core/src/annostorage/inmemory.rs item=AnnoStorageImpl::remove_element_from_by_anno
//@spec
    requires compact(old(self).by_anno.view()),
    ensures
        *final(self) == (AnnoStorageImpl { by_anno: final(self).by_anno, ..*old(self) }),
        compact(final(self).by_anno.view()),
        forall|k: usize, v: usize, i: T| #![trigger ba(final(self).by_anno.view(), k, v, i)] ba(final(self).by_anno.view(), k, v, i) <==> ba(old(self).by_anno.view(), k, v, i) && !(k == anno.key && v == anno.val && i == *item),
//@at fn_start
    let ghost b0 = self.by_anno.view();
//@at fn_end
    proof {
        let b1 = if remove_anno_key { self.by_anno.view().remove(anno.key) } else { self.by_anno.view() };
        let ak = anno.key; let av = anno.val;
        assert forall|k: usize| #![trigger b1.dom().contains(k)] #![trigger b1[k]] k != ak implies b1.dom().contains(k) == b0.dom().contains(k) && (b0.dom().contains(k) ==> b1[k] == b0[k]) by {}
        if b0.dom().contains(ak) {
            let n0 = b0[ak].view();
            let gone = n0.dom().contains(av) && n0[av].view().remove(*item) == Set::<T>::empty();
            let n1 = if !n0.dom().contains(av) { n0 } else if gone { n0.remove(av) } else { b1[ak].view() };
            if !gone {
                assert(b1.dom().contains(ak));
                if n0.dom().contains(av) {
                    assert(n1.dom() =~= n0.dom());
                    assert(n1[av].view() == n0[av].view().remove(*item));
                } else { assert(b1[ak] == b0[ak]); }
                assert(n1 != Map::<usize, BTreeSet<T>>::empty()) by { if n1 == Map::<usize, BTreeSet<T>>::empty() { assert(n0 =~= Map::<usize, BTreeSet<T>>::empty()); } }
            } else {
                assert(n0[av].view() =~= Set::<T>::empty().insert(*item) || n0[av].view() =~= Set::<T>::empty());
                assert(b1.dom().contains(ak) ==> b1[ak].view() == n1);
                assert(!b1.dom().contains(ak) ==> n1 == Map::<usize, BTreeSet<T>>::empty());
                assert(b1.dom().contains(ak) ==> n1 != Map::<usize, BTreeSet<T>>::empty());
            }
            assert(b0[ak].view() != Map::<usize, BTreeSet<T>>::empty());
            assert(!gone ==> b1[ak].view() == n1 || !n0.dom().contains(av));
            assert(b1.dom().contains(ak) ==> b1[ak].view() != Map::<usize, BTreeSet<T>>::empty());
            assert forall|v: usize, i: T| #![trigger ba(b1, ak, v, i)] ba(b1, ak, v, i) <==> ba(b0, ak, v, i) && !(v == av && i == *item) by {
                if gone && v == av && b0[ak].view()[av].view().contains(i) { assert(!n0[av].view().remove(*item).contains(i)); }
                if !b1.dom().contains(ak) { assert(!Map::<usize, BTreeSet<T>>::empty().dom().contains(v)); assert(n1.dom().contains(v) <==> n0.dom().contains(v) && v != av); }
            }
            assert forall|v: usize| #![trigger b1[ak].view().dom().contains(v)] b1.dom().contains(ak) && b1[ak].view().dom().contains(v) implies b1[ak].view()[v].view() != Set::<T>::empty() by { assert(b0[ak].view().dom().contains(v)); }
        }
        assert forall|k: usize, v: usize, i: T| #![trigger ba(b1, k, v, i)] ba(b1, k, v, i) <==> ba(b0, k, v, i) && !(k == ak && v == av && i == *item) by {}
        assert forall|k: usize, v: usize| #![trigger b1[k].view().dom().contains(v)] b1.dom().contains(k) && b1[k].view().dom().contains(v) implies b1[k].view()[v].view() != Set::<T>::empty() by { if k != ak { assert(b0[k].view().dom().contains(v)); } }
        assert forall|k: usize| #![trigger b1.dom().contains(k)] b1.dom().contains(k) implies b1[k].view() != Map::<usize, BTreeSet<T>>::empty() by { if k != ak { assert(b0.dom().contains(k)); } }
    }
//@end
//@fn src=core/src/annostorage/inmemory.rs item=AnnoStorageImpl::check_and_remove_value_symbol
//@forname 0 it
//@spec
    requires old(self).anno_values.wf(),
    ensures
        *final(self) == (AnnoStorageImpl { anno_values: final(self).anno_values, ..*old(self) }),
        final(self).anno_values.wf(),
        forall|id: usize| #![trigger final(self).anno_values.val(id)] id != value_id ==> final(self).anno_values.val(id) == old(self).anno_values.val(id),
        (exists|k: usize| #![trigger old(self).by_anno.view().dom().contains(k)] old(self).by_anno.view().dom().contains(k) && old(self).by_anno.view()[k].view().dom().contains(value_id)) ==> final(self).anno_values.val(value_id) == old(self).anno_values.val(value_id),
//@loop 0
    invariant_except_break
        !still_used,
        forall|j: int| #![trigger it.seq()[j]] 0 <= j < it.index() ==> !it.seq()[j].view().dom().contains(value_id),
    ensures
        still_used || forall|j: int| #![trigger it.seq()[j]] 0 <= j < it.seq().len() ==> !it.seq()[j].view().dom().contains(value_id),
//@end
//@fn src=core/src/annostorage/inmemory.rs item="AnnotationStorage for AnnoStorageImpl::insert"
//@rewrite anno\.key\.clone\(\) => clone_of(&anno.key)
//@rewrite \bitem\.clone\(\) => clone_of(&item)
//@rewrite self\.create_sparse_anno\(anno\)\? => { let r = self.create_sparse_anno(anno); proof { lemma_syms(s0, *self); lemma_all(s0, m0); lemma_all(*self, m0); } r? }
//@rewrite \.entry\(([^()]*)\)\s*\.or_default\(\) => .entry_or_default($1)
//@rewrite \.entry\((clone_of\(&item\))\)\s*\.or_default\(\) => .entry_or_default($1)
//@rewrite \.entry\(orig_anno_key\)\.or_insert\(0\) => .entry_or_insert(orig_anno_key, 0)
//@rewrite (\w+)\.binary_search_by_key\(&anno\.key, \|a\| a\.key\) => search_key(&*$1, anno.key)
//@rewrite self\.largest_item\.clone\(\) => clone_of(&self.largest_item)
//@rewrite largest_item < item => less(&largest_item, &item)
//@spec
    requires exists|m: Model<T>| #[trigger] old(self).rep(m), old(self).total_number_of_annos < usize::MAX,
    ensures
        forall|m: Model<T>| #![trigger old(self).rep(m)] old(self).rep(m) ==> final(self).rep(if ret.is_ok() { m.insert((item, anno.key), anno.val) } else { m }),
//@at fn_start
    let ghost s0 = *self;
    let ghost m0 = choose|m: Model<T>| s0.rep(m);
    let ghost key = anno.key;
    let ghost val = anno.val;
    proof { lemma_all(s0, m0); }
//@at after_call create_sparse_anno 0
    let ghost s1 = *self;
    let ghost a = anno;
    proof { assert(s1.rep(m0)); assert(by_key(s1.list(item))); }
//@at before_call Ok 0
    proof {
        assert(existing_item_entry@ == s1.list(item));
        lemma_list_put(s1.list(item), existing_entry_idx as int, a);
        assert(s1.has(item, a.key, a.val));
        assert(m0.insert((item, key), val) =~= m0);
        assert(s1.by_container.view().dom().contains(item));
        assert(self.by_container.view() =~= s1.by_container.view());
        lemma_syms(s1, *self);
    }
//@at before_call Some 0
    proof { lemma_list_put(s1.list(item), existing_entry_idx as int, a); }
//@at before_call insert 0
    proof { lemma_list_put(s1.list(item), insertion_idx as int, a); }
//@at before_call entry 1
    let ghost s3 = *self;
    proof {
        assert(s3.list(item).len() > 0);
        assert(put_of(s1, s3, item, a)) by {
            assert forall|i: T, k: usize, v: usize| #![trigger s3.has(i, k, v)] s3.has(i, k, v) <==> (if i == item && k == a.key { v == a.val } else { s1.has(i, k, v) }) by {
                if i != item { assert(s3.list(i) == s1.list(i)); }
            }
        }
    }
//@at before_call is_none 0
    let ghost s4 = *self;
    proof {
        lemma_ba_put(s3.by_anno.view(), s4.by_anno.view(), a, item);
        assert forall|i: T, k: usize, v: usize| #![trigger s4.has(i, k, v)] s4.has(i, k, v) == s3.has(i, k, v) by {}
        lemma_maps_put(s1, s4, m0, item, a, key, val);
        assert(existing_anno matches Some(o) ==> s1.has(item, a.key, o.val));
        assert(existing_anno is None ==> forall|v: usize| !#[trigger] s1.has(item, a.key, v));
        assert(existing_anno is Some <==> m0.dom().contains((item, key)));
        lemma_count_put(m0, item, key, val);
        lemma_sizes(m0);
        lt_order::<T>();
        assert(s4.indexed()) by {
            assert forall|i: T| #![trigger s4.list(i)] by_key(s4.list(i)) by { if i != item { assert(s4.list(i) == s1.list(i)); } }
            assert forall|i: T| #![trigger s4.by_container.view().dom().contains(i)] s4.by_container.view().dom().contains(i) implies s4.list(i).len() > 0 by { if i != item { assert(s4.list(i) == s1.list(i)); assert(s1.by_container.view().dom().contains(i)); } }
        }
    }
//@at before_call Ok 1
    proof {
        let n = m0.insert((item, key), val);
        lemma_same(s4, *self, n);
        assert(s1.counts(m0));
        assert(self.total_number_of_annos == n.len());
        assert(s1.anno_key_sizes.view().dom().contains(key) <==> with_key(m0, key).len() > 0);
        let sz = self.anno_key_sizes.view();
        let sz0 = s1.anno_key_sizes.view();
        assert(sz0.dom().contains(key) ==> sz0[key] == with_key(m0, key).len());
        assert(m0.dom().contains((item, key)) ==> sz =~= sz0);
        assert(!m0.dom().contains((item, key)) ==> sz =~= sz0.insert(key, (with_key(m0, key).len() + 1) as usize));
        assert(self.indexed() && self.maps(n));
        assert(forall|k: AnnoKey| #![trigger with_key(n, k)] with_key(n, k).len() == with_key(m0, k).len() + if !m0.dom().contains((item, key)) && k == key { 1int } else { 0 });
        assert forall|k: AnnoKey| #![trigger self.anno_key_sizes.view().dom().contains(k)] self.anno_key_sizes.view().dom().contains(k) <==> with_key(n, k).len() > 0 by { assert(s1.anno_key_sizes.view().dom().contains(k) <==> with_key(m0, k).len() > 0); }
        assert forall|k: AnnoKey| #![trigger self.anno_key_sizes.view()[k]] self.anno_key_sizes.view().dom().contains(k) implies self.anno_key_sizes.view()[k] == with_key(n, k).len() by { assert(s1.anno_key_sizes.view().dom().contains(k) <==> with_key(m0, k).len() > 0); if k != key { assert(self.anno_key_sizes.view()[k] == s1.anno_key_sizes.view()[k]); } }
        assert(self.counts(n));
        assert(self.largest(n));
    }
//@end
//@fn src=core/src/annostorage/inmemory.rs item="AnnotationStorage for AnnoStorageImpl::number_of_annotations"
//@spec
    ensures ret is Ok, forall|m: Model<T>| #![trigger self.rep(m)] self.rep(m) ==> ret->Ok_0 == m.len(),
//@end
//@fn src=core/src/annostorage/inmemory.rs item="AnnotationStorage for AnnoStorageImpl::is_empty"
//@spec
    ensures ret is Ok, forall|m: Model<T>| #![trigger self.rep(m)] self.rep(m) ==> (ret->Ok_0 <==> m.len() == 0),
//@end
//@fn src=core/src/annostorage/inmemory.rs item="AnnotationStorage for AnnoStorageImpl::get_largest_item"
//@rewrite self\.largest_item\.clone\(\) => clone_of(&self.largest_item)
//@spec
    ensures ret is Ok, forall|m: Model<T>, i: T, key: AnnoKey| #![trigger self.rep(m), m.dom().contains((i, key))] self.rep(m) && m.dom().contains((i, key)) ==> ret->Ok_0 is Some && !lt(ret->Ok_0->0, i),
//@end
//@fn src=core/src/annostorage/inmemory.rs item="AnnotationStorage for AnnoStorageImpl::clear"
//@spec
    ensures ret is Ok, final(self).rep(Model::<T>::empty()),
//@end
//@fn src=core/src/annostorage/inmemory.rs item="AnnotationStorage for AnnoStorageImpl::get_value_for_item"
//@rewrite Result<Option<Cow<'_, str>>> => Result<Option<String>>
//@rewrite all_annos\.binary_search_by_key\(&key_symbol, \|a\| a\.key\) => search_key(all_annos, key_symbol)
//@rewrite Cow::Borrowed\(val\) => cow(val)
//@spec
    requires exists|m: Model<T>| #[trigger] self.rep(m),
    ensures ret is Ok, forall|m: Model<T>| #![trigger self.rep(m)] self.rep(m) ==> ret->Ok_0 == (if m.dom().contains((*item, *key)) { Some(m[(*item, *key)]) } else { None }),
//@at fn_start
    let ghost m0 = choose|m: Model<T>| self.rep(m);
    proof { lemma_all(*self, m0); lemma_get(*self, m0, *item, *key); }
//@end
//@fn src=core/src/annostorage/inmemory.rs item="AnnotationStorage for AnnoStorageImpl::has_value_for_item"
//@rewrite (?s)all_annos\s*\.binary_search_by_key\(&key_symbol, \|a\| a\.key\) => search_key(all_annos, key_symbol)
//@spec
    requires exists|m: Model<T>| #[trigger] self.rep(m),
    ensures ret is Ok, forall|m: Model<T>| #![trigger self.rep(m)] self.rep(m) ==> (ret->Ok_0 <==> m.dom().contains((*item, *key))),
//@at fn_start
    let ghost m0 = choose|m: Model<T>| self.rep(m);
    proof { lemma_all(*self, m0); lemma_get(*self, m0, *item, *key); }
//@end
}
}
