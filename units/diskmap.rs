// Verus unit: the on-disk table (core/src/util/disk_collections.rs)
#![allow(unused)]
use vstd::prelude::*;
verus! {
global size_of usize == 8;
pub struct GraphAnnisCoreError { pub code: u64 }
pub type Result<T> = std::result::Result<T, GraphAnnisCoreError>;
pub use std::ops::Bound;

// ---- contracts assumed for dependencies ---------------------------------------------------------
pub mod deps {
use vstd::prelude::*;
use super::{Result, GraphAnnisCoreError};
/// the order of the keys
pub uninterp spec fn klt<K>(a: K, b: K) -> bool;
pub open spec fn kle<K>(a: K, b: K) -> bool { a == b || klt(a, b) }
pub broadcast axiom fn klt_irrefl<K>(a: K) ensures !#[trigger] klt(a, a);
pub broadcast axiom fn klt_trans<K>(a: K, b: K, c: K) requires klt(a, b), klt(b, c) ensures #![trigger klt(a, b), klt(b, c)] klt(a, c);
pub broadcast axiom fn klt_total<K>(a: K, b: K) ensures #![trigger klt(a, b)] klt(a, b) || klt(b, a) || a == b;
/// the byte representation of keys and of values: injective (P09), and ordered like the keys
pub uninterp spec fn kb<K>(k: K) -> Seq<u8>;
pub uninterp spec fn vb<V>(v: Option<V>) -> Seq<u8>;
/// lexicographic order of byte strings
pub uninterp spec fn blt(a: Seq<u8>, b: Seq<u8>) -> bool;
pub broadcast axiom fn blt_irrefl(a: Seq<u8>) ensures !#[trigger] blt(a, a);
pub broadcast axiom fn blt_trans(a: Seq<u8>, b: Seq<u8>, c: Seq<u8>) requires blt(a, b), blt(b, c) ensures #![trigger blt(a, b), blt(b, c)] blt(a, c);
pub broadcast axiom fn blt_total(a: Seq<u8>, b: Seq<u8>) ensures #![trigger blt(a, b)] blt(a, b) || blt(b, a) || a == b;
pub broadcast axiom fn kb_order<K>(a: K, b: K) ensures #![trigger kb(a), kb(b)] (kb(a) == kb(b) ==> a == b) && (klt(a, b) <==> blt(kb(a), kb(b)));

/// std BTreeMap
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
pub struct BTreeMap<K, V> { x: std::collections::BTreeMap<K, V> }
impl<K, V> BTreeMap<K, V> {
    pub uninterp spec fn view(&self) -> Map<K, V>;
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r.view() == Map::<K, V>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn default() -> (r: Self) ensures r.view() == Map::<K, V>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn clear(&mut self) ensures final(self).view() == Map::<K, V>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r <==> self.view() == Map::<K, V>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) { unimplemented!() }
    #[verifier::external_body]
    pub fn get(&self, k: &K) -> (r: Option<&V>)
        ensures r is None <==> !self.view().dom().contains(*k), r matches Some(v) ==> *v == self.view()[*k],
    { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: K, v: V) -> (r: Option<V>) ensures final(self).view() == old(self).view().insert(k, v) { unimplemented!() }
    #[verifier::external_body]
    pub fn into_iter(self) -> (r: Vec<(K, V)>)
        ensures
            forall|i: int, j: int| #![trigger r@[i], r@[j]] 0 <= i < r@.len() && 0 <= j < r@.len() && i != j ==> r@[i].0 != r@[j].0,
            forall|i: int| #![trigger r@[i]] 0 <= i < r@.len() ==> self.view().dom().contains(r@[i].0) && self.view()[r@[i].0] == r@[i].1,
            forall|k: K| #![trigger self.view().dom().contains(k)] self.view().dom().contains(k) ==> exists|i: int| #![trigger r@[i]] 0 <= i < r@.len() && r@[i].0 == k,
    { unimplemented!() }
}
/// transient_btree_index::BtreeIndex
#[derive(Clone, Copy)]
pub struct BtreeConfig { pub x: u8 }
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
pub struct BtreeIndex<K, V> { x: std::collections::BTreeMap<K, V> }
impl<K, V> BtreeIndex<K, V> {
    pub uninterp spec fn view(&self) -> Map<K, V>;
    #[verifier::external_body]
    pub fn with_capacity(c: BtreeConfig, n: usize) -> (r: Result<Self>) ensures r matches Ok(b) ==> b.view() == Map::<K, V>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn get(&self, k: &K) -> (r: Result<Option<V>>)
        ensures r matches Ok(x) ==> (x is None <==> !self.view().dom().contains(*k)) && (x matches Some(v) ==> v == self.view()[*k]),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn contains_key(&self, k: &K) -> (r: Result<bool>) ensures r matches Ok(x) ==> x == self.view().dom().contains(*k) { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: K, v: V) -> (r: Result<Option<V>>) ensures r is Ok ==> final(self).view() == old(self).view().insert(k, v) { unimplemented!() }
}
/// sstable::Table: byte strings in ascending order of the keys
#[verifier::external_body]
pub struct Table { x: u8 }
pub type Entry = (Seq<u8>, Seq<u8>);
pub open spec fn ascending(s: Seq<Entry>) -> bool { forall|i: int, j: int| #![trigger s[i], s[j]] 0 <= i < j < s.len() ==> blt(s[i].0, s[j].0) }
impl Table {
    pub uninterp spec fn entries(&self) -> Seq<Entry>;
    #[verifier::external_body]
    pub fn get(&self, key: &Vec<u8>) -> (r: Result<Option<Vec<u8>>>)
        ensures
            r matches Ok(Some(v)) ==> exists|i: int| #![trigger self.entries()[i]] 0 <= i < self.entries().len() && self.entries()[i] == (key@, v@),
            r matches Ok(None) ==> forall|i: int| #![trigger self.entries()[i]] 0 <= i < self.entries().len() ==> self.entries()[i].0 != key@,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn iter(&self) -> (r: TableIterator) ensures r.entries() == self.entries(), ascending(r.entries()), r.pos() == -1 { unimplemented!() }
    #[verifier::external_body]
    pub fn new_from_file(o: u8, p: &Path) -> (r: Result<Table>) ensures r matches Ok(t) ==> t == file(*p) { unimplemented!() }
}
/// a file and the table stored in it
#[verifier::external_body]
pub struct Path { x: u8 }
pub uninterp spec fn file(p: Path) -> Table;
pub uninterp spec fn exists_file(p: Path) -> bool;
impl Path {
    #[verifier::external_body]
    pub fn is_file(&self) -> (r: bool) ensures r == exists_file(*self) { unimplemented!() }
}
#[verifier::external_body]
pub fn custom_options(n: usize) -> (r: u8) { unimplemented!() }
/// sstable::TableIterator: at the entry `pos`, outside of the table if there is no such entry
#[verifier::external_body]
pub struct TableIterator { x: u8 }
impl TableIterator {
    pub uninterp spec fn entries(&self) -> Seq<Entry>;
    pub uninterp spec fn pos(&self) -> int;
    pub open spec fn at_entry(&self) -> bool { 0 <= self.pos() < self.entries().len() }
    #[verifier::external_body]
    pub fn valid(&self) -> (r: bool) ensures r == self.at_entry() { unimplemented!() }
    #[verifier::external_body]
    pub fn seek(&mut self, key: &[u8])
        ensures
            final(self).entries() == old(self).entries(), 0 <= final(self).pos() <= final(self).entries().len(),
            forall|i: int| #![trigger final(self).entries()[i]] 0 <= i < final(self).pos() ==> blt(final(self).entries()[i].0, key@),
            forall|i: int| #![trigger final(self).entries()[i]] final(self).pos() <= i < final(self).entries().len() ==> !blt(final(self).entries()[i].0, key@),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn seek_to_first(&mut self) ensures final(self).entries() == old(self).entries(), final(self).pos() == 0 { unimplemented!() }
    #[verifier::external_body]
    pub fn current(&self, key: &mut Vec<u8>, value: &mut Vec<u8>) -> (r: bool)
        ensures r == self.at_entry(), r ==> final(key)@ == self.entries()[self.pos()].0 && final(value)@ == self.entries()[self.pos()].1,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn current_key(&self) -> (r: Option<&[u8]>)
        ensures r is Some == self.at_entry(), r matches Some(k) ==> k@ == self.entries()[self.pos()].0,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn advance(&mut self) -> (r: bool)
        requires old(self).pos() < old(self).entries().len(),
        ensures final(self).entries() == old(self).entries(), final(self).pos() == old(self).pos() + 1, r == final(self).at_entry(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<(Vec<u8>, Vec<u8>)>)
        requires old(self).pos() < old(self).entries().len(),
        ensures
            final(self).entries() == old(self).entries(), final(self).pos() == old(self).pos() + 1,
            r is Some == final(self).at_entry(), r matches Some(e) ==> e.0@ == final(self).entries()[final(self).pos()].0 && e.1@ == final(self).entries()[final(self).pos()].1,
    { unimplemented!() }
}
pub type KeyVec = Vec<u8>;
#[verifier::external_body]
pub fn create_key<K>(k: &K) -> (r: KeyVec) ensures r@ == kb(*k) { unimplemented!() }
/// a byte string which was made from a key is parsed to this key (P09)
#[verifier::external_body]
pub fn parse_key<K>(b: &[u8]) -> (r: Result<K>) ensures forall|k: K| #![trigger kb(k)] b@ == kb(k) ==> r == Ok::<K, GraphAnnisCoreError>(k) { unimplemented!() }
#[derive(Clone, Copy)]
pub struct DefaultOptions { pub x: u8 }
impl DefaultOptions {
    /// a serialized value is deserialized to this value
    #[verifier::external_body]
    pub fn deserialize<V>(&self, b: &Vec<u8>) -> (r: Result<Option<V>>) ensures forall|v: Option<V>| #![trigger vb(v)] b@ == vb(v) ==> r == Ok::<Option<V>, GraphAnnisCoreError>(v) { unimplemented!() }
}
pub fn options() -> (r: DefaultOptions) { DefaultOptions { x: 0 } }
#[verifier::external_body]
pub fn clone_of<T>(x: &T) -> (r: T) ensures r == *x { unimplemented!() }
#[verifier::external_body]
pub fn bytes_lt(a: &[u8], b: &[u8]) -> (r: bool) ensures r == blt(a@, b@) { a < b }
#[verifier::external_body]
pub fn bytes_eq(a: &[u8], b: &[u8]) -> (r: bool) ensures r == (a@ == b@) { a == b }
#[verifier::external_body]
pub fn slice(a: &KeyVec) -> (r: &[u8]) ensures r@ == a@ { a }
/// the heads of the iterators which are merged: `all` are the remaining entries
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
pub struct Peekable<K, V> { x: (K, V) }
impl<K, V> Peekable<K, V> {
    pub uninterp spec fn all(&self) -> Seq<Result<(K, V)>>;
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<Result<(K, V)>>)
        ensures
            r is None <==> old(self).all().len() == 0, r matches Some(x) ==> x == old(self).all()[0],
            final(self).all() == (if old(self).all().len() == 0 { old(self).all() } else { old(self).all().skip(1) }),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn is_some(&self) -> (r: bool) ensures r <==> self.all().len() > 0 { unimplemented!() }
    /// the key of the next entry, nothing if it could not be read
    #[verifier::external_body]
    pub fn peek_key(&self) -> (r: Option<Option<K>>)
        ensures r is None <==> self.all().len() == 0, r matches Some(k) ==> k == (match self.all()[0] { Ok(x) => Some(x.0), Err(_) => None }),
    { unimplemented!() }
}
/// std BTreeMap::range, peekable
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
pub struct PeekableRange<K, V> { x: (K, V) }
impl<K, V> PeekableRange<K, V> {
    pub uninterp spec fn all(&self) -> Seq<(K, V)>;
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<(K, V)>)
        ensures
            r is None <==> old(self).all().len() == 0, r matches Some(x) ==> x == old(self).all()[0],
            final(self).all() == (if old(self).all().len() == 0 { old(self).all() } else { old(self).all().skip(1) }),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn is_some(&self) -> (r: bool) ensures r <==> self.all().len() > 0 { unimplemented!() }
    #[verifier::external_body]
    pub fn peek_key(&self) -> (r: Option<Option<K>>)
        ensures r is None <==> self.all().len() == 0, r matches Some(k) ==> k == Some(self.all()[0].0),
    { unimplemented!() }
}
/// the smallest of the existing keys, `None` is smaller than every key
#[verifier::external_body]
pub fn min_key<K>(a: &Option<Option<K>>, b: &Option<Option<K>>, c: &Option<Option<K>>) -> (r: Option<Option<K>>)
    ensures
        r is None <==> a is None && b is None && c is None,
        r matches Some(x) ==> (*a == r || *b == r || *c == r),
        r matches Some(None) ==> *a == Some(None::<K>) || *b == Some(None::<K>) || *c == Some(None::<K>),
        r matches Some(Some(k)) ==> (*a matches Some(x) ==> x matches Some(y) && kle(k, y)) && (*b matches Some(x) ==> x matches Some(y) && kle(k, y)) && (*c matches Some(x) ==> x matches Some(y) && kle(k, y)),
{ unimplemented!() }
#[verifier::external_body]
pub fn same<K>(a: &Option<Option<K>>, k: &Option<K>) -> (r: bool) ensures r == (*a == Some(*k)) { unimplemented!() }
}
use deps::*;
broadcast use {deps::klt_irrefl, deps::klt_trans, deps::klt_total, deps::blt_irrefl, deps::blt_trans, deps::blt_total, deps::kb_order};

// ---- specification ----------------------------------------------------------------------------
/// the file contains values only, written for keys of the type
pub open spec fn table_ok<K, V>(s: Seq<Entry>) -> bool {
    &&& ascending(s)
    &&& forall|i: int| #![trigger s[i]] 0 <= i < s.len() ==> exists|k: K, v: V| #![trigger kb(k), vb(Some(v))] s[i] == (kb(k), vb(Some(v)))
}
pub open spec fn in_table<K, V>(s: Seq<Entry>, k: K, v: V) -> bool { exists|i: int| #![trigger s[i]] 0 <= i < s.len() && s[i] == (kb(k), vb(Some(v))) }
pub open spec fn table_at<K, V>(s: Seq<Entry>, k: K) -> Option<V> { if exists|v: V| in_table(s, k, v) { Some(choose|v: V| in_table(s, k, v)) } else { None } }
/// values are serialized injectively
pub axiom fn vb_injective<V>() ensures forall|a: Option<V>, b: Option<V>| #![trigger vb(a), vb(b)] vb(a) == vb(b) ==> a == b;
pub proof fn lemma_table<K, V>(s: Seq<Entry>, k: K)
    requires table_ok::<K, V>(s),
    ensures
        forall|v: V| #![trigger in_table(s, k, v)] table_at::<K, V>(s, k) == Some(v) <==> in_table(s, k, v),
        forall|i: int| #![trigger s[i]] 0 <= i < s.len() && s[i].0 == kb(k) ==> table_at::<K, V>(s, k) is Some && s[i].1 == vb(table_at::<K, V>(s, k)),
        (forall|i: int| #![trigger s[i]] 0 <= i < s.len() ==> s[i].0 != kb(k)) ==> table_at::<K, V>(s, k) is None,
{
    vb_injective::<V>();
    assert forall|v: V| #![trigger in_table(s, k, v)] table_at::<K, V>(s, k) == Some(v) <==> in_table(s, k, v) by {
        if in_table(s, k, v) {
            let w = choose|w: V| in_table(s, k, w);
            assert(in_table(s, k, w));
            let i = choose|i: int| #![trigger s[i]] 0 <= i < s.len() && s[i] == (kb(k), vb(Some(v)));
            let j = choose|j: int| #![trigger s[j]] 0 <= j < s.len() && s[j] == (kb(k), vb(Some(w)));
            if i < j { assert(blt(s[i].0, s[j].0)); }
            if j < i { assert(blt(s[j].0, s[i].0)); }
        }
    }
    assert forall|i: int| #![trigger s[i]] 0 <= i < s.len() && s[i].0 == kb(k) implies table_at::<K, V>(s, k) is Some && s[i].1 == vb(table_at::<K, V>(s, k)) by {
        let (k2, v) = choose|k2: K, v: V| #![trigger kb(k2), vb(Some(v))] s[i] == (kb(k2), vb(Some(v)));
        assert(k2 == k);
        assert(in_table(s, k, v));
    }
}

pub enum EvictionStrategy { MaximumItems(usize) }
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
//@item src=core/src/util/disk_collections.rs item="struct DiskMap"
//@rewrite (?m)^    ([a-z]\w*): => pub $1:
//@rewrite (?s)where.*?Sync,\n\{ => {
//@rewrite bincode::config:: => 

impl<K, V> DiskMap<K, V> {
    pub open spec fn wf(&self) -> bool { self.c2 matches Some(t) ==> table_ok::<K, V>(t.entries()) }
    pub open spec fn below(&self, k: K) -> Option<V> { match self.c2 { Some(t) => table_at::<K, V>(t.entries(), k), None => None } }
    pub open spec fn disk(&self, k: K) -> Option<V> {
        if self.c1 is Some && self.c1->0.view().dom().contains(k) { self.c1->0.view()[k] } else { self.below(k) }
    }
    /// the value of the key
    pub open spec fn at(&self, k: K) -> Option<V> {
        if self.c0.view().dom().contains(k) { self.c0.view()[k] } else { self.disk(k) }
    }
}

pub open spec fn above(b: Bound<KeyVec>, k: Seq<u8>) -> bool { match b { Bound::Included(s) => !blt(k, s@), Bound::Excluded(s) => blt(s@, k), Bound::Unbounded => true } }
pub open spec fn under(b: Bound<KeyVec>, k: Seq<u8>) -> bool { match b { Bound::Included(s) => !blt(s@, k), Bound::Excluded(s) => blt(k, s@), Bound::Unbounded => true } }
/// the entries from `pos` on contain the key
pub open spec fn from<K, V>(s: Seq<Entry>, pos: int, k: K, v: V) -> bool { exists|i: int| #![trigger s[i]] 0 <= i < s.len() && i >= pos && s[i] == (kb(k), vb(Some(v))) }

//@item src=core/src/util/disk_collections.rs item="struct SimplifiedRange"
//@rewrite (?m)^    ([a-z]\w*): => pub $1:
//@rewrite (?m)^struct => pub struct
//@rewrite bincode::config:: => 
//@item src=core/src/util/disk_collections.rs item="struct SingleTableIterator"
//@rewrite (?m)^    ([a-z]\w*): => pub $1:
//@rewrite (?m)^struct => pub struct
//@rewrite bincode::config:: => 
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
//@item src=core/src/util/disk_collections.rs item="struct CombinedRange"
//@rewrite (?m)^    ([a-z]\w*): => pub $1:
//@rewrite (?s)where.*?Send,\n\{ => {
//@rewrite struct CombinedRange<'a, K, V> => struct CombinedRange<K, V>
//@rewrite Peekable<std::collections::btree_map::Range<'a, K, Option<V>>> => PeekableRange<K, Option<V>>
//@rewrite Peekable<ResultIterator<'a, K, Option<V>>> => Peekable<K, Option<V>>
//@rewrite Peekable<ResultIterator<'a, K, V>> => Peekable<K, V>

impl<K, V> SimplifiedRange<K, V> {
    pub open spec fn wf(&self) -> bool {
        let s = self.table_it.entries();
        &&& table_ok::<K, V>(s) && self.table_it.pos() >= 0
        &&& !self.exhausted ==> forall|i: int| #![trigger s[i]] self.table_it.pos() <= i < s.len() ==> above(self.range_start, s[i].0)
    }
    /// the entries which are still to be listed
    pub open spec fn rest(&self, k: K, v: V) -> bool {
        !self.exhausted && above(self.range_start, kb(k)) && under(self.range_end, kb(k)) && from(self.table_it.entries(), self.table_it.pos(), k, v)
    }
}
/// `it` lists `k` with `v` as the next entry
pub open spec fn lists_next<K, V>(before: spec_fn(K, V) -> bool, after: spec_fn(K, V) -> bool, ret: Option<Result<(K, V)>>) -> bool {
    match ret {
        None => forall|k: K, v: V| #![trigger before(k, v)] !before(k, v),
        Some(Ok((k, v))) => before(k, v) && (forall|k2: K, v2: V| #![trigger before(k2, v2)] before(k2, v2) ==> kle(k, k2)) && (forall|k2: K, v2: V| #![trigger after(k2, v2)] after(k2, v2) <==> before(k2, v2) && klt(k, k2)),
        Some(Err(_)) => false,
    }
}
pub proof fn lemma_range_step<K, V>(s: Seq<Entry>, pos: int, k: K, v: V)
    requires table_ok::<K, V>(s), 0 <= pos < s.len(), s[pos] == (kb(k), vb(Some(v))),
    ensures
        from(s, pos, k, v),
        forall|k2: K, v2: V| #![trigger from(s, pos, k2, v2)] from(s, pos, k2, v2) ==> kle(k, k2),
        forall|k2: K, v2: V| #![trigger from(s, pos + 1, k2, v2)] #![trigger from(s, pos, k2, v2)] from(s, pos + 1, k2, v2) <==> from(s, pos, k2, v2) && klt(k, k2),
        forall|k2: K, v2: V| #![trigger from(s, pos, k2, v2)] from(s, pos, k2, v2) ==> k2 == k || blt(s[pos].0, kb(k2)),
{
    assert forall|k2: K, v2: V| #![trigger from(s, pos, k2, v2)] from(s, pos, k2, v2) implies k2 == k || blt(s[pos].0, kb(k2)) by {
        let i = choose|i: int| #![trigger s[i]] 0 <= i < s.len() && i >= pos && s[i] == (kb(k2), vb(Some(v2)));
        if i > pos { assert(blt(s[pos].0, s[i].0)); }
    }
    assert forall|k2: K, v2: V| #![trigger from(s, pos + 1, k2, v2)] #![trigger from(s, pos, k2, v2)] from(s, pos + 1, k2, v2) <==> from(s, pos, k2, v2) && klt(k, k2) by {
        if from(s, pos + 1, k2, v2) {
            let i = choose|i: int| #![trigger s[i]] 0 <= i < s.len() && i >= pos + 1 && s[i] == (kb(k2), vb(Some(v2)));
            assert(blt(s[pos].0, s[i].0));
            assert(from(s, pos, k2, v2));
        }
        if from(s, pos, k2, v2) && klt(k, k2) {
            let i = choose|i: int| #![trigger s[i]] 0 <= i < s.len() && i >= pos && s[i] == (kb(k2), vb(Some(v2)));
            assert(i >= pos + 1);
        }
    }
}
/// nothing is listed if the first entry is not in the range
pub proof fn lemma_range_end<K, V>(s: Seq<Entry>, pos: int)
    requires table_ok::<K, V>(s), 0 <= pos,
    ensures
        forall|k2: K, v2: V| #![trigger from(s, pos, k2, v2)] from(s, pos, k2, v2) ==> pos < s.len() && (kb(k2) == s[pos].0 || blt(s[pos].0, kb(k2))),
{
    assert forall|k2: K, v2: V| #![trigger from(s, pos, k2, v2)] from(s, pos, k2, v2) implies pos < s.len() && (kb(k2) == s[pos].0 || blt(s[pos].0, kb(k2))) by {
        let i = choose|i: int| #![trigger s[i]] 0 <= i < s.len() && i >= pos && s[i] == (kb(k2), vb(Some(v2)));
        if i > pos { assert(blt(s[pos].0, s[i].0)); }
    }
}
/// the range from the start of the table
pub proof fn lemma_from<K, V>(s: Seq<Entry>, pos: int, lo: Bound<KeyVec>)
    requires table_ok::<K, V>(s), pos >= 0, forall|i: int| #![trigger s[i]] 0 <= i < s.len() && i < pos ==> !above(lo, s[i].0),
    ensures forall|k: K, v: V| #![trigger from(s, pos, k, v)] #![trigger in_table(s, k, v)] above(lo, kb(k)) ==> (from(s, pos, k, v) <==> in_table(s, k, v)),
{
    assert forall|k: K, v: V| #![trigger from(s, pos, k, v)] #![trigger in_table(s, k, v)] above(lo, kb(k)) implies (from(s, pos, k, v) <==> in_table(s, k, v)) by {
        if from(s, pos, k, v) { let i = choose|i: int| #![trigger s[i]] 0 <= i < s.len() && i >= pos && s[i] == (kb(k), vb(Some(v))); }
        if in_table(s, k, v) { let i = choose|i: int| #![trigger s[i]] 0 <= i < s.len() && s[i] == (kb(k), vb(Some(v))); assert(i >= pos); }
    }
}
impl<K, V> SingleTableIterator<K, V> {
    pub open spec fn rest(&self, k: K, v: V) -> bool { from(self.table_iterator.entries(), self.table_iterator.pos() + 1, k, v) }
}

pub open spec fn sorted<K, X>(s: Seq<(K, X)>) -> bool { forall|i: int, j: int| #![trigger s[i], s[j]] 0 <= i < j < s.len() ==> klt(s[i].0, s[j].0) }
pub open spec fn oks<K, X>(s: Seq<Result<(K, X)>>) -> bool { forall|i: int| #![trigger s[i]] 0 <= i < s.len() ==> s[i] is Ok }
pub open spec fn vals<K, X>(s: Seq<Result<(K, X)>>) -> Seq<(K, X)> { Seq::new(s.len(), |i: int| s[i]->Ok_0) }
pub open spec fn find<K, X>(s: Seq<(K, X)>, k: K) -> Option<X> { if exists|i: int| #![trigger s[i]] 0 <= i < s.len() && s[i].0 == k { Some(s[choose|i: int| #![trigger s[i]] 0 <= i < s.len() && s[i].0 == k].1) } else { None } }
pub proof fn lemma_find<K, X>(s: Seq<(K, X)>)
    requires sorted(s),
    ensures
        s.len() > 0 ==> find(s, s[0].0) == Some(s[0].1),
        forall|k: K| #![trigger find(s, k)] s.len() > 0 && klt(k, s[0].0) ==> find(s, k) is None,
        s.len() == 0 ==> forall|k: K| #![trigger find(s, k)] find(s, k) is None,
        s.len() > 0 ==> sorted(s.skip(1)) && forall|k: K| #![trigger find(s.skip(1), k)] #![trigger find(s, k)] find(s.skip(1), k) == (if k == s[0].0 { None } else { find(s, k) }),
{
    if s.len() > 0 {
        let t = s.skip(1);
        assert(s[0] == s[0]);
        assert forall|k: K| #![trigger find(t, k)] #![trigger find(s, k)] find(t, k) == (if k == s[0].0 { None } else { find(s, k) }) by {
            if exists|i: int| #![trigger t[i]] 0 <= i < t.len() && t[i].0 == k {
                let i = choose|i: int| #![trigger t[i]] 0 <= i < t.len() && t[i].0 == k;
                assert(s[i + 1] == t[i]);
                assert(klt(s[0].0, s[i + 1].0));
                let j = choose|j: int| #![trigger s[j]] 0 <= j < s.len() && s[j].0 == k;
                assert(j == i + 1) by { if j < i + 1 { assert(klt(s[j].0, s[i + 1].0)); } if j > i + 1 { assert(klt(s[i + 1].0, s[j].0)); } }
            } else if exists|j: int| #![trigger s[j]] 0 <= j < s.len() && s[j].0 == k {
                let j = choose|j: int| #![trigger s[j]] 0 <= j < s.len() && s[j].0 == k;
                if j > 0 { assert(t[j - 1] == s[j]); }
            }
        }
        assert forall|k: K| #![trigger find(s, k)] klt(k, s[0].0) implies find(s, k) is None by {
            if exists|j: int| #![trigger s[j]] 0 <= j < s.len() && s[j].0 == k { let j = choose|j: int| #![trigger s[j]] 0 <= j < s.len() && s[j].0 == k; if j > 0 { assert(klt(s[0].0, s[j].0)); } }
        }
    }
}
impl<K, V> CombinedRange<K, V> {
    pub open spec fn wf(&self) -> bool {
        oks(self.c1_iterator.all()) && oks(self.c2_iterator.all()) && sorted(self.c0_iterator.all()) && sorted(vals(self.c1_iterator.all())) && sorted(vals(self.c2_iterator.all()))
    }
    /// the value for a key in the merged entries: the most recent table decides
    pub open spec fn at(&self, k: K) -> Option<V> {
        match find(self.c0_iterator.all(), k) { Some(x) => x, None => match find(vals(self.c1_iterator.all()), k) { Some(x) => x, None => find(vals(self.c2_iterator.all()), k) } }
    }
}
pub proof fn lemma_heads<K, V>(s: CombinedRange<K, V>)
    requires s.wf(),
    ensures
        ({
            let (a, b, c) = (s.c0_iterator.all(), vals(s.c1_iterator.all()), vals(s.c2_iterator.all()));
            &&& a.len() > 0 ==> find(a, a[0].0) == Some(a[0].1) && sorted(a.skip(1))
            &&& b.len() > 0 ==> find(b, b[0].0) == Some(b[0].1) && sorted(b.skip(1)) && vals(s.c1_iterator.all().skip(1)) == b.skip(1) && oks(s.c1_iterator.all().skip(1))
            &&& c.len() > 0 ==> find(c, c[0].0) == Some(c[0].1) && sorted(c.skip(1)) && vals(s.c2_iterator.all().skip(1)) == c.skip(1) && oks(s.c2_iterator.all().skip(1))
            &&& forall|k: K| #![trigger find(a, k)] (a.len() == 0 || klt(k, a[0].0) ==> find(a, k) is None) && (a.len() > 0 ==> find(a.skip(1), k) == (if k == a[0].0 { None } else { find(a, k) }))
            &&& forall|k: K| #![trigger find(b, k)] (b.len() == 0 || klt(k, b[0].0) ==> find(b, k) is None) && (b.len() > 0 ==> find(b.skip(1), k) == (if k == b[0].0 { None } else { find(b, k) }))
            &&& forall|k: K| #![trigger find(c, k)] (c.len() == 0 || klt(k, c[0].0) ==> find(c, k) is None) && (c.len() > 0 ==> find(c.skip(1), k) == (if k == c[0].0 { None } else { find(c, k) }))
        }),
{
    let (a, b, c) = (s.c0_iterator.all(), vals(s.c1_iterator.all()), vals(s.c2_iterator.all()));
    lemma_find(a); lemma_find(b); lemma_find(c);
    if b.len() > 0 { assert(vals(s.c1_iterator.all().skip(1)) =~= b.skip(1)); }
    if c.len() > 0 { assert(vals(s.c2_iterator.all().skip(1)) =~= c.skip(1)); }
}

// ---- the code ---------------------------------------------------------------------------------
//@inlined new insert get is_empty clear next iter seek advance deserialize seek_to_first current current_key valid is_file len with_capacity into_iter default options
impl<K, V> DiskMap<K, V> {
//@fn src=core/src/util/disk_collections.rs item=DiskMap::new
//@rewrite bincode::options => options
//@spec
    requires persisted_file matches Some(p) ==> exists_file(*p) ==> table_ok::<K, V>(file(*p).entries()),
    ensures
        ret matches Ok(m) ==> m.wf() && forall|k: K| #![trigger m.at(k)] m.at(k) == (if persisted_file is Some && exists_file(*persisted_file->0) { table_at::<K, V>(file(*persisted_file->0).entries(), k) } else { None }),
//@end
//@fn src=core/src/util/disk_collections.rs item=DiskMap::new_temporary
//@rewrite bincode::options => options
//@spec
    ensures ret.wf(), forall|k: K| #![trigger ret.at(k)] ret.at(k) is None,
//@end
//@fn src=core/src/util/disk_collections.rs item=DiskMap::insert
//@spec
    requires old(self).wf(),
    ensures
        final(self).wf(),
        ret is Ok ==> forall|k: K| #![trigger final(self).at(k)] final(self).at(k) == (if k == key { Some(value) } else { old(self).at(k) }),
//@at before_call evict_c0_if_necessary 0
    proof { assert forall|k: K| #![trigger self.at(k)] self.at(k) == (if k == key { Some(value) } else { old(self).at(k) }) by { } }
//@end
//@fn src=core/src/util/disk_collections.rs item=DiskMap::get
//@rewrite Option<Cow<'_, V>> => Option<V>
//@rewrite Cow::Borrowed\(value\) => clone_of(value)
//@rewrite Cow::Owned\(value\) => value
//@rewrite K::create_key\(key\) => create_key(key)
//@spec
    requires self.wf(),
    ensures ret matches Ok(v) ==> v == self.at(*key),
//@at fn_start
    proof { if self.c2 is Some { lemma_table::<K, V>(self.c2->0.entries(), *key); } }
//@end
//@fn src=core/src/util/disk_collections.rs item=DiskMap::contains_key
//@rewrite K::create_key\(key\) => create_key(key)
//@rewrite it_key == key\.as_ref\(\) => bytes_eq(it_key, slice(&key))
//@rewrite table_it\.seek\(&key\) => table_it.seek(slice(&key))
//@spec
    requires self.wf(),
    ensures ret matches Ok(v) ==> (v <==> self.at(*key) is Some),
//@at fn_start
    proof { if self.c2 is Some { lemma_table::<K, V>(self.c2->0.entries(), *key); } }
//@at before_call Ok 3
    proof {
        if self.c2 is Some && table_it.at_entry() { }
    }
//@end
//@fn src=core/src/util/disk_collections.rs item=DiskMap::remove
//@rewrite (?s)self\.get\(key\)\?\.map\(\|existing\| existing\.into_owned\(\)\) => self.get(key)?
//@rewrite key\.clone\(\) => clone_of(key)
//@spec
    requires old(self).wf(),
    ensures
        final(self).wf(),
        ret matches Ok(r) ==> r == old(self).at(*key) && forall|k: K| #![trigger final(self).at(k)] final(self).at(k) == (if k == *key { None } else { old(self).at(k) }),
//@at before_call evict_c0_if_necessary 0
    proof { assert forall|k: K| #![trigger self.at(k)] self.at(k) == (if k == *key { None } else { old(self).at(k) }) by { } }
//@end
//@fn src=core/src/util/disk_collections.rs item=DiskMap::clear
//@spec
    ensures final(self).wf(), forall|k: K| #![trigger final(self).at(k)] final(self).at(k) is None,
//@end
#[verifier::loop_isolation(false)]
//@fn src=core/src/util/disk_collections.rs item=DiskMap::compact
//@forname 0 it
//@at fn_start
    let ghost all = self.c0.view();
//@at before_loop 0
    let ghost c1_0 = c1.view();
//@spec
    requires old(self).wf(),
    ensures
        final(self).wf(),
        ret is Ok ==> forall|k: K| #![trigger final(self).at(k)] final(self).at(k) == old(self).at(k),
        ret is Ok ==> final(self).c0.view() == Map::<K, Option<V>>::empty(),
//@loop 0
    invariant
        forall|i: int, j: int| #![trigger it.seq()[i], it.seq()[j]] 0 <= i < it.seq().len() && 0 <= j < it.seq().len() && i != j ==> it.seq()[i].0 != it.seq()[j].0,
        forall|i: int| #![trigger it.seq()[i]] 0 <= i < it.seq().len() ==> all.dom().contains(it.seq()[i].0) && all[it.seq()[i].0] == it.seq()[i].1,
        forall|k: K| #![trigger all.dom().contains(k)] all.dom().contains(k) ==> exists|i: int| #![trigger it.seq()[i]] 0 <= i < it.seq().len() && it.seq()[i].0 == k,
        forall|j: int| #![trigger it.seq()[j]] 0 <= j < it.index() ==> c1.view().dom().contains(it.seq()[j].0) && c1.view()[it.seq()[j].0] == it.seq()[j].1,
        forall|k: K| #![trigger c1.view().dom().contains(k)] #![trigger c1.view()[k]] !all.dom().contains(k) ==> c1.view().dom().contains(k) == c1_0.dom().contains(k) && c1.view()[k] == c1_0[k],
//@end
//@fn src=core/src/util/disk_collections.rs item=DiskMap::evict_c0_if_necessary
//@spec
    requires old(self).wf(),
    ensures final(self).wf(), ret is Ok ==> forall|k: K| #![trigger final(self).at(k)] final(self).at(k) == old(self).at(k),
//@end
}
impl<K, V> SimplifiedRange<K, V> {
//@fn src=core/src/util/disk_collections.rs item=SimplifiedRange::new
//@rewrite bincode::config:: => 
//@rewrite let (\w+): &\[u8\] = (&?\w+); => let $1: &[u8] = slice(${2});
//@rewrite key >= start\b => !bytes_lt(key, start)
//@rewrite key > start\b => bytes_lt(start, key)
//@rewrite key <= end\b => !bytes_lt(end, key)
//@rewrite key < end\b => bytes_lt(key, end)
//@rewrite key == start_bound => bytes_eq(key, start_bound)
//@rewrite Vec::default\(\) => Vec::new()
//@spec
    requires table_ok::<K, V>(disk_table.entries()),
    ensures
        ret.wf(), ret.table_it.entries() == disk_table.entries(),
        forall|k: K, v: V| #![trigger ret.rest(k, v)] ret.rest(k, v) <==> in_table(disk_table.entries(), k, v) && above(range_start, kb(k)) && under(range_end, kb(k)),
//@end
//@fn src=core/src/util/disk_collections.rs item=SimplifiedRange::range_contains
//@rewrite start\.as_slice\(\) <= item => !bytes_lt(item, slice(start))
//@rewrite start\.as_slice\(\) < item => bytes_lt(slice(start), item)
//@rewrite item <= end\.as_ref\(\) => !bytes_lt(slice(end), item)
//@rewrite item < end\.as_ref\(\) => bytes_lt(item, slice(end))
//@spec
    ensures ret <==> above(self.range_start, item@) && under(self.range_end, item@),
//@end
#[verifier::loop_isolation(false)]
//@fn src=core/src/util/disk_collections.rs item="Iterator for SimplifiedRange::next"
//@rewrite Option<Self::Item> => Option<Result<(K, V)>>
//@rewrite self\.range_contains\(&self\.current_key\) => self.range_contains(slice(&self.current_key))
//@rewrite K::parse_key\(&self\.current_key\) => parse_key::<K>(slice(&self.current_key))
//@rewrite Err\(e\.into\(\)\) => Err(e)
//@spec
    requires old(self).wf(),
    ensures
        final(self).wf(),
        lists_next(|k: K, v: V| old(self).rest(k, v), |k: K, v: V| final(self).rest(k, v), ret),
//@loop 0
    invariant
        self.wf(),
        forall|k: K, v: V| #![trigger self.rest(k, v)] self.rest(k, v) <==> old(self).rest(k, v),
    decreases self.table_it.entries().len() - self.table_it.pos(), if self.exhausted { 0int } else { 1 },
//@at loop_start 0
    let ghost pre = *self;
    let ghost s = self.table_it.entries();
    let ghost pos = self.table_it.pos();
    let ghost (k0, v0) = choose|k: K, v: V| #![trigger kb(k), vb(Some(v))] s[pos] == (kb(k), vb(Some(v)));
    proof {
        lemma_range_step(s, pos, k0, v0);
        lemma_range_end::<K, V>(s, pos);
        assert forall|k: K, v: V| #![trigger old(self).rest(k, v)] old(self).rest(k, v) implies pre.rest(k, v) by { assert(self.rest(k, v)); }
    }
//@at before_call Ok 0
    proof {
        assert(key == k0 && value == v0);
        assert(pre.rest(k0, v0));
        assert(old(self).rest(k0, v0));
        assert forall|k: K, v: V| #![trigger old(self).rest(k, v)] old(self).rest(k, v) implies kle(k0, k) by { assert(pre.rest(k, v)); }
        assert forall|k: K, v: V| #![trigger self.rest(k, v)] #![trigger old(self).rest(k, v)] self.rest(k, v) <==> old(self).rest(k, v) && klt(k0, k) by { assert(pre.rest(k, v) <==> old(self).rest(k, v)); assert(from(s, pos + 1, k, v) <==> from(s, pos, k, v) && klt(k0, k)); }
    }
//@at loop_end 0
    proof {
        assert(self.exhausted);
        assert forall|k: K, v: V| #![trigger pre.rest(k, v)] !pre.rest(k, v) by {
            if pre.rest(k, v) { assert(from(s, pos, k, v)); assert(kb(k) == s[pos].0 || blt(s[pos].0, kb(k))); assert(!under(self.range_end, s[pos].0)); }
        }
        assert forall|k: K, v: V| #![trigger self.rest(k, v)] self.rest(k, v) <==> old(self).rest(k, v) by { assert(pre.rest(k, v) <==> old(self).rest(k, v)); }
    }
//@at after_loop 0
    proof { assert forall|k: K, v: V| #![trigger old(self).rest(k, v)] !old(self).rest(k, v) by { assert(self.rest(k, v) <==> old(self).rest(k, v)); } }
//@end
}
impl<K, V> SingleTableIterator<K, V> {
#[verifier::loop_isolation(false)]
#[verifier::allow_complex_invariants]
//@fn src=core/src/util/disk_collections.rs item="Iterator for SingleTableIterator::next"
//@rewrite Option<Self::Item> => Option<Result<(K, V)>>
//@rewrite K::parse_key\(&key\) => parse_key::<K>(slice(&key))
//@rewrite Err\(e\.into\(\)\) => Err(e)
//@spec
    requires table_ok::<K, V>(old(self).table_iterator.entries()), -1 <= old(self).table_iterator.pos() < old(self).table_iterator.entries().len(),
    ensures
        final(self).table_iterator.entries() == old(self).table_iterator.entries(),
        ret is Some ==> final(self).table_iterator.pos() < final(self).table_iterator.entries().len(),
        lists_next(|k: K, v: V| old(self).rest(k, v), |k: K, v: V| final(self).rest(k, v), ret),
//@loop 0
    invariant_except_break
        self.table_iterator == old(self).table_iterator,
    ensures
        self.table_iterator.entries() == old(self).table_iterator.entries(),
        forall|k: K, v: V| #![trigger old(self).rest(k, v)] !old(self).rest(k, v),
    decreases self.table_iterator.entries().len() - self.table_iterator.pos(),
//@at loop_start 0
    let ghost s = self.table_iterator.entries();
    let ghost pos = self.table_iterator.pos();
    let ghost (k0, v0) = choose|k: K, v: V| #![trigger kb(k), vb(Some(v))] s[pos] == (kb(k), vb(Some(v)));
    proof { lemma_range_step(s, pos, k0, v0); }
//@end
}
impl<K, V> CombinedRange<K, V> {
#[verifier::loop_isolation(false)]
//@fn src=core/src/util/disk_collections.rs item="Iterator for CombinedRange::next"
//@rewrite Option<Self::Item> => Option<Result<(K, V)>>
//@rewrite (c\d_iterator)\.peek\(\)\.is_some\(\) => $1.is_some()
//@rewrite self\.c0_iterator\.peek\(\)\.map\(\|\(k, _v\)\| Some\(\*k\)\) => self.c0_iterator.peek_key()
//@rewrite (?s)\.peek\(\)\.map\(\|entry\| match entry \{\s*Ok\(\(k, _v\)\)\s=>\sSome\(k\),\s*Err\(_\)\s=>\sNone,\s*\}\) => .peek_key()
//@rewrite vec!\[c0, c1, c3\]\.into_iter\(\)\.flatten\(\)\.min\(\) => min_key(&c0, &c1, &c3)
//@rewrite (c\d) == Some\(min_key\) => same(&$1, &min_key)
//@rewrite k\.clone\(\), v\.clone\(\) => clone_of(&k), clone_of(&v)
//@spec
    requires old(self).wf(),
    ensures
        final(self).wf(),
        ret is None ==> forall|k: K| #![trigger old(self).at(k)] old(self).at(k) is None,
        !(ret matches Some(Err(_))),
        ret matches Some(Ok((k, v))) ==> old(self).at(k) == Some(v) && (forall|k2: K| #![trigger old(self).at(k2)] klt(k2, k) ==> old(self).at(k2) is None)
            && forall|k2: K| #![trigger final(self).at(k2)] final(self).at(k2) == (if klt(k, k2) { old(self).at(k2) } else { None }),
//@at fn_start
    proof { lemma_heads(*self); }
//@loop 0
    invariant
        self.wf(), forall|k: K| #![trigger self.at(k)] #![trigger old(self).at(k)] self.at(k) == old(self).at(k),
    decreases self.c0_iterator.all().len() + self.c1_iterator.all().len() + self.c2_iterator.all().len(),
//@at loop_start 0
    let ghost s0 = *self;
    proof { lemma_heads(s0); }
//@end
}
}
