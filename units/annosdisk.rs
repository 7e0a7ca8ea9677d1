// Verus unit: annotation storage on disk (core/src/annostorage/ondisk.rs)
#![allow(unused)]
use vstd::prelude::*;
use std::sync::Arc;
use std::ops::Range;
verus! {
global size_of usize == 8;
#[derive(Debug)]
pub struct GraphAnnisCoreError { pub code: u64 }
pub type Result<T> = std::result::Result<T, GraphAnnisCoreError>;

//@item src=core/src/types.rs item="struct AnnoKey"
//@item src=core/src/types.rs item="struct Annotation"

// ---- contracts assumed for dependencies ---------------------------------------------------------
pub mod deps {
use vstd::prelude::*;
use std::sync::Arc;
use super::{Result, GraphAnnisCoreError};
pub uninterp spec fn default_of<V>() -> V;
/// std HashMap / BTreeMap; items and keys are compared by value
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
pub struct HashMap<K, V> { x: std::collections::HashMap<K, V> }
pub type BTreeMap<K, V> = HashMap<K, V>;
impl<K, V> HashMap<K, V> {
    pub uninterp spec fn view(&self) -> Map<K, V>;
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r.view() == Map::<K, V>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn default() -> (r: Self) ensures r.view() == Map::<K, V>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn clear(&mut self) ensures final(self).view() == Map::<K, V>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r <==> self.view() == Map::<K, V>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn contains_key(&self, k: &K) -> (r: bool) ensures r == self.view().dom().contains(*k) { unimplemented!() }
    #[verifier::external_body]
    pub fn get(&self, k: &K) -> (r: Option<&V>)
        ensures r is None <==> !self.view().dom().contains(*k), r matches Some(v) ==> *v == self.view()[*k],
    { unimplemented!() }
    #[verifier::external_body]
    pub fn get_mut(&mut self, k: &K) -> (r: Option<&mut V>)
        ensures
            r is None <==> !old(self).view().dom().contains(*k),
            r is None ==> *final(self) == *old(self),
            r matches Some(v) ==> *v == old(self).view()[*k] && final(self).view() == old(self).view().insert(*k, *final(v)),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn entry_or_default(&mut self, k: K) -> (r: &mut V)
        ensures
            *r == (if old(self).view().dom().contains(k) { old(self).view()[k] } else { default_of::<V>() }),
            final(self).view() == old(self).view().insert(k, *final(r)),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn entry_or_insert(&mut self, k: K, d: V) -> (r: &mut V)
        ensures
            *r == (if old(self).view().dom().contains(k) { old(self).view()[k] } else { d }),
            final(self).view() == old(self).view().insert(k, *final(r)),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: K, v: V) -> (r: Option<V>) ensures final(self).view() == old(self).view().insert(k, v) { unimplemented!() }
    #[verifier::external_body]
    pub fn remove(&mut self, k: &K) -> (r: Option<V>)
        ensures
            final(self).view() == old(self).view().remove(*k),
            r is None <==> !old(self).view().dom().contains(*k), r matches Some(v) ==> v == old(self).view()[*k],
    { unimplemented!() }
    /// the values in any order
    #[verifier::external_body]
    pub fn values(&self) -> (r: Vec<&V>)
        ensures
            forall|k: K| #![trigger self.view().dom().contains(k)] self.view().dom().contains(k) ==> exists|i: int| #![trigger r@[i]] 0 <= i < r@.len() && *r@[i] == self.view()[k],
            forall|i: int| #![trigger r@[i]] 0 <= i < r@.len() ==> exists|k: K| #![trigger self.view().dom().contains(k)] self.view().dom().contains(k) && *r@[i] == self.view()[k],
    { unimplemented!() }
}
/// core/src/annostorage/symboltable.rs, with the contract proved in the unit `symboltable`
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct SymbolTable<T> { x: T }
impl<T> SymbolTable<T> {
    pub uninterp spec fn wf(&self) -> bool;
    pub uninterp spec fn sym(&self) -> Map<T, usize>;
    pub uninterp spec fn val(&self, id: usize) -> Option<T>;
    #[verifier::external_body]
    pub fn new() -> (ret: Self) ensures ret.wf(), ret.sym() == Map::<T, usize>::empty(), forall|id: usize| ret.val(id) is None { unimplemented!() }
    #[verifier::external_body]
    pub fn clear(&mut self) ensures final(self).wf(), final(self).sym() == Map::<T, usize>::empty(), forall|id: usize| final(self).val(id) is None { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, val: T) -> (ret: Result<usize>)
        requires old(self).wf(),
        ensures
            final(self).wf(),
            ret matches Ok(id) ==> final(self).sym() == old(self).sym().insert(val, id),
            ret.is_ok() && old(self).sym().dom().contains(val) ==> final(self).sym() == old(self).sym(),
            ret.is_err() ==> final(self).sym() == old(self).sym(),
            forall|id: usize| #![trigger final(self).val(id)] (ret.is_err() || old(self).val(id) is Some) ==> final(self).val(id) == old(self).val(id),
            ret matches Ok(id) ==> final(self).val(id) == Some(val),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn remove(&mut self, symbol: usize) -> (ret: Option<Arc<T>>)
        requires old(self).wf(),
        ensures
            final(self).wf(),
            (match ret { Some(v) => old(self).val(symbol) == Some(*v), None => old(self).val(symbol) is None }),
            final(self).sym() == (match old(self).val(symbol) { Some(v) => old(self).sym().remove(v), None => old(self).sym() }),
            forall|id: usize| #![trigger final(self).val(id)] final(self).val(id) == (if id == symbol { None } else { old(self).val(id) }),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn get_value(&self, id: usize) -> (ret: Option<Arc<T>>) ensures (match ret { Some(v) => self.val(id) == Some(*v), None => self.val(id) is None }) { unimplemented!() }
    #[verifier::external_body]
    pub fn get_value_ref(&self, id: usize) -> (ret: Option<&T>) ensures (match ret { Some(v) => self.val(id) == Some(*v), None => self.val(id) is None }) { unimplemented!() }
    #[verifier::external_body]
    pub fn get_symbol(&self, val: &T) -> (ret: Option<usize>)
        ensures ret is None <==> !self.sym().dom().contains(*val), ret matches Some(i) ==> i == self.sym()[*val],
    { unimplemented!() }
}
/// `lemma_inverse` of the unit `symboltable`
pub broadcast axiom fn inverse<T>(s: SymbolTable<T>, v: T, id: usize)
    ensures #![trigger s.val(id), s.sym().dom().contains(v)] s.wf() ==> (s.val(id) == Some(v) <==> s.sym().dom().contains(v) && s.sym()[v] == id);

/// core/src/util/disk_collections.rs, with the contract proved in the unit `diskmap`
#[verifier::external_body]
#[verifier::reject_recursive_types(V)]
#[verifier::reject_recursive_types(K)]
pub struct DiskMap<K, V> { x: K, y: V }
impl<V> DiskMap<ByteBuf, V> {
    pub uninterp spec fn view(&self) -> Map<Seq<u8>, V>;
    #[verifier::external_body]
    pub fn insert(&mut self, k: ByteBuf, v: V) -> (r: Result<()>) ensures r is Ok ==> final(self).view() == old(self).view().insert(k.view(), v) { unimplemented!() }
    #[verifier::external_body]
    pub fn get(&self, k: &ByteBuf) -> (r: Result<Option<V>>)
        ensures r matches Ok(x) ==> (x is None <==> !self.view().dom().contains(k.view())) && (x matches Some(v) ==> v == self.view()[k.view()]),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn contains_key(&self, k: &ByteBuf) -> (r: Result<bool>) ensures r matches Ok(x) ==> x == self.view().dom().contains(k.view()) { unimplemented!() }
    #[verifier::external_body]
    pub fn remove(&mut self, k: &ByteBuf) -> (r: Result<Option<V>>)
        ensures
            r is Ok ==> final(self).view() == old(self).view().remove(k.view()),
            r matches Ok(x) ==> (x is None <==> !old(self).view().dom().contains(k.view())) && (x matches Some(v) ==> v == old(self).view()[k.view()]),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn clear(&mut self) ensures final(self).view() == Map::<Seq<u8>, V>::empty() { unimplemented!() }
}
/// serde_bytes::ByteBuf
#[verifier::external_body]
pub struct ByteBuf { x: Vec<u8> }
impl ByteBuf {
    pub uninterp spec fn view(&self) -> Seq<u8>;
    #[verifier::external_body]
    pub fn from(v: Vec<u8>) -> (r: ByteBuf) ensures r.view() == v@ { unimplemented!() }
    #[verifier::external_body]
    pub fn extend(&mut self, v: Vec<u8>) ensures final(self).view() == old(self).view() + v@ { unimplemented!() }
    #[verifier::external_body]
    pub fn push(&mut self, b: u8) ensures final(self).view() == old(self).view().push(b) { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self.view().len(), r < usize::MAX / 2 { unimplemented!() }
    #[verifier::external_body]
    pub fn clone(&self) -> (r: ByteBuf) ensures r.view() == self.view() { unimplemented!() }
}
/// the byte keys of items and symbols (P09): injective and of a fixed length; the bytes of a text are
/// injective and UTF-8 does not use the byte 0xFF
pub uninterp spec fn kb<T>(x: T) -> Seq<u8>;
pub uninterp spec fn ks<T>() -> nat;
pub uninterp spec fn ub(s: String) -> Seq<u8>;
pub broadcast axiom fn kb_len<T>(x: T) ensures #![trigger kb(x)] kb(x).len() == ks::<T>();
pub axiom fn kb_injective<T>() ensures forall|x: T, y: T| #![trigger kb(x), kb(y)] kb(x) == kb(y) ==> x == y;
pub axiom fn ks_usize() ensures ks::<usize>() == 8;
pub axiom fn ub_text() ensures (forall|x: String, y: String| #![trigger ub(x), ub(y)] ub(x) == ub(y) ==> x == y), forall|x: String, i: int| #![trigger ub(x)[i]] 0 <= i < ub(x).len() ==> ub(x)[i] < 0xFF;
#[verifier::external_body]
pub fn create_key<T>(x: &T) -> (r: Vec<u8>) ensures r@ == kb(*x) { unimplemented!() }
#[verifier::external_body]
pub fn key_size<T>() -> (r: usize) ensures r == ks::<T>(), r < 1000 { unimplemented!() }
#[verifier::external_body]
pub fn as_bytes(s: &String) -> (r: Vec<u8>) ensures r@ == ub(*s) { unimplemented!() }
#[verifier::external_body]
pub fn ne_text(a: &String, b: &String) -> (r: bool) ensures r == (*a != *b) { unimplemented!() }
}
use deps::*;
broadcast use {deps::inverse, deps::kb_len};

/// the items: cloning gives an equal item, `<` is a strict total order
#[verifier::external_body]
pub fn clone_of<T>(x: &T) -> (r: T) ensures r == *x { unimplemented!() }
pub uninterp spec fn lt<T>(a: T, b: T) -> bool;
#[verifier::external_body]
pub fn less<T>(a: &T, b: &T) -> (r: bool) ensures r == lt(*a, *b) { unimplemented!() }
pub axiom fn lt_order<T>()
    ensures
        forall|a: T| !#[trigger] lt(a, a),
        forall|a: T, b: T, c: T| #![trigger lt(a, b), lt(b, c)] lt(a, b) && lt(b, c) ==> lt(a, c),
        forall|a: T, b: T| #![trigger lt(a, b)] lt(a, b) || lt(b, a) || a == b;

#[verifier::external_body]
pub fn less_eq<T>(a: &T, b: &T) -> (r: bool) ensures r == !lt(*b, *a) { unimplemented!() }

// ---- specification ----------------------------------------------------------------------------
/// key of an annotation in the table by item
pub open spec fn ckey<T>(i: T, s: usize) -> Seq<u8> { kb(i) + kb(s) }
/// key of an annotation in the table by name and value
pub open spec fn qkey<T>(i: T, s: usize, v: String) -> Seq<u8> { kb(s) + ub(v) + seq![0u8] + kb(i) }
pub proof fn lemma_ckey<T>()
    ensures forall|i: T, s: usize, i2: T, s2: usize| #![trigger ckey(i, s), ckey(i2, s2)] ckey(i, s) == ckey(i2, s2) ==> i == i2 && s == s2,
{
    kb_injective::<T>(); kb_injective::<usize>();
    assert forall|i: T, s: usize, i2: T, s2: usize| #![trigger ckey(i, s), ckey(i2, s2)] ckey(i, s) == ckey(i2, s2) implies i == i2 && s == s2 by {
        let n = ks::<T>() as int;
        assert(ckey(i, s).subrange(0, n) =~= kb(i));
        assert(ckey(i2, s2).subrange(0, n) =~= kb(i2));
        assert(ckey(i, s).subrange(n, ckey(i, s).len() as int) =~= kb(s));
        assert(ckey(i2, s2).subrange(n, ckey(i, s).len() as int) =~= kb(s2));
    }
}
pub proof fn lemma_qparts<T>(i: T, s: usize, v: String)
    ensures ({
        let q = qkey(i, s, v);
        &&& q.len() == ks::<usize>() + ub(v).len() + 1 + ks::<T>()
        &&& q.subrange(0, ks::<usize>() as int) == kb(s)
        &&& q.subrange(ks::<usize>() as int, q.len() - 1 - ks::<T>()) == ub(v)
        &&& q[q.len() - 1 - ks::<T>()] == 0
        &&& q.subrange(q.len() - ks::<T>(), q.len() as int) == kb(i)
    }),
{
    let q = qkey(i, s, v);
    assert(q.subrange(0, ks::<usize>() as int) =~= kb(s));
    assert(q.subrange(ks::<usize>() as int, q.len() - 1 - ks::<T>()) =~= ub(v));
    assert(q.subrange(q.len() - ks::<T>(), q.len() as int) =~= kb(i));
}
pub proof fn lemma_qkey<T>()
    ensures forall|i: T, s: usize, v: String, i2: T, s2: usize, v2: String| #![trigger qkey(i, s, v), qkey(i2, s2, v2)] qkey(i, s, v) == qkey(i2, s2, v2) ==> i == i2 && s == s2 && v == v2,
{
    kb_injective::<T>(); kb_injective::<usize>(); ub_text();
    assert forall|i: T, s: usize, v: String, i2: T, s2: usize, v2: String| #![trigger qkey(i, s, v), qkey(i2, s2, v2)] qkey(i, s, v) == qkey(i2, s2, v2) implies i == i2 && s == s2 && v == v2 by {
        lemma_qparts(i, s, v); lemma_qparts(i2, s2, v2);
    }
}
/// lexicographic order of byte strings
pub open spec fn blt(a: Seq<u8>, b: Seq<u8>) -> bool
    decreases a.len()
{
    if b.len() == 0 { false } else if a.len() == 0 { true } else { a[0] < b[0] || (a[0] == b[0] && blt(a.skip(1), b.skip(1))) }
}
pub open spec fn in_range(r: Range<ByteBuf>, k: Seq<u8>) -> bool { !blt(k, r.start.view()) && blt(k, r.end.view()) }
pub open spec fn starts(s: Seq<u8>, p: Seq<u8>) -> bool { p.len() <= s.len() && s.subrange(0, p.len() as int) == p }
pub proof fn lemma_starts(s: Seq<u8>, p: Seq<u8>)
    ensures p.len() > 0 ==> (starts(s, p) <==> s.len() > 0 && s[0] == p[0] && starts(s.skip(1), p.skip(1))), p.len() == 0 ==> starts(s, p),
{
    if p.len() == 0 { assert(s.subrange(0, 0) =~= p); } else {
        if starts(s, p) { assert(s.subrange(0, p.len() as int)[0] == p[0]); assert(s.skip(1).subrange(0, p.len() - 1) =~= s.subrange(0, p.len() as int).skip(1)); }
        if s.len() > 0 && s[0] == p[0] && starts(s.skip(1), p.skip(1)) {
            assert forall|j: int| 0 <= j < p.len() implies s.subrange(0, p.len() as int)[j] == p[j] by { if j > 0 { assert(s.skip(1).subrange(0, p.len() - 1)[j - 1] == p.skip(1)[j - 1]); } }
            assert(s.subrange(0, p.len() as int) =~= p);
        }
    }
}
/// the keys from `p` to `p` followed by the byte `x` are those starting with `p` and then a smaller byte
pub proof fn lemma_lex(s: Seq<u8>, p: Seq<u8>, x: u8)
    ensures (!blt(s, p) && blt(s, p.push(x))) <==> starts(s, p) && (s.len() == p.len() || s[p.len() as int] < x),
    decreases p.len(),
{
    lemma_starts(s, p);
    if p.len() > 0 && s.len() > 0 {
        lemma_lex(s.skip(1), p.skip(1), x);
        assert(p.push(x).skip(1) =~= p.skip(1).push(x));
    } else if p.len() == 0 && s.len() > 0 {
        assert(p.push(x).skip(1) =~= Seq::<u8>::empty());
        assert(!blt(s.skip(1), Seq::<u8>::empty()));
    }
}
/// the keys from `p` + 0 to `p` + 1 are those starting with `p` + 0
pub proof fn lemma_lex01(s: Seq<u8>, p: Seq<u8>)
    ensures (!blt(s, p.push(0u8)) && blt(s, p.push(1u8))) <==> starts(s, p.push(0u8)),
    decreases p.len(),
{
    lemma_starts(s, p.push(0u8));
    if p.len() > 0 && s.len() > 0 {
        lemma_lex01(s.skip(1), p.skip(1));
        assert(p.push(0u8).skip(1) =~= p.skip(1).push(0u8));
        assert(p.push(1u8).skip(1) =~= p.skip(1).push(1u8));
    } else if p.len() == 0 && s.len() > 0 {
        assert(p.push(0u8).skip(1) =~= Seq::<u8>::empty());
        assert(p.push(1u8).skip(1) =~= Seq::<u8>::empty());
        assert(!blt(s.skip(1), Seq::<u8>::empty()));
        lemma_starts(s.skip(1), Seq::<u8>::empty());
    }
}
/// keys of the range for a value
pub proof fn lemma_value_range<T>(sym: usize, value: String)
    ensures forall|i: T, s: usize, v: String| #![trigger qkey(i, s, v)] ({
        let p = kb(sym) + ub(value);
        (!blt(qkey(i, s, v), p.push(0u8)) && blt(qkey(i, s, v), p.push(1u8)) && qkey(i, s, v).len() == p.len() + 1 + ks::<T>()) <==> s == sym && v == value
    }),
{
    let p = kb(sym) + ub(value);
    kb_injective::<usize>(); ub_text();
    assert forall|i: T, s: usize, v: String| #![trigger qkey(i, s, v)] (!blt(qkey(i, s, v), p.push(0u8)) && blt(qkey(i, s, v), p.push(1u8)) && qkey(i, s, v).len() == p.len() + 1 + ks::<T>()) <==> s == sym && v == value by {
        let q = qkey(i, s, v);
        lemma_lex01(q, p);
        lemma_qparts(i, s, v);
        let n = ks::<usize>() as int;
        if starts(q, p.push(0u8)) && q.len() == p.len() + 1 + ks::<T>() {
            assert(q.subrange(0, n) =~= q.subrange(0, p.len() as int + 1).subrange(0, n));
            assert(p.push(0u8).subrange(0, n) =~= kb(sym));
            assert(q.subrange(n, p.len() as int) =~= q.subrange(0, p.len() as int + 1).subrange(n, p.len() as int));
            assert(p.push(0u8).subrange(n, p.len() as int) =~= ub(value));
        }
        if s == sym && v == value { assert(q.subrange(0, p.len() as int + 1) =~= p.push(0u8)); }
    }
}
/// keys of the range for a prefix of the value
pub proof fn lemma_prefix_range<T>(sym: usize, prefix: String)
    ensures forall|i: T, s: usize, v: String| #![trigger qkey(i, s, v)] ({
        let p = kb(sym) + ub(prefix);
        let hit = !blt(qkey(i, s, v), p) && blt(qkey(i, s, v), p.push(0xFFu8));
        (s == sym && starts(ub(v), ub(prefix)) ==> hit) && (hit ==> s == sym) && (hit && ub(prefix).len() <= ub(v).len() ==> starts(ub(v), ub(prefix)))
    }),
{
    let p = kb(sym) + ub(prefix);
    kb_injective::<usize>(); ub_text();
    assert forall|i: T, s: usize, v: String| #![trigger qkey(i, s, v)] ({
        let hit = !blt(qkey(i, s, v), p) && blt(qkey(i, s, v), p.push(0xFFu8));
        (s == sym && starts(ub(v), ub(prefix)) ==> hit) && (hit ==> s == sym) && (hit && ub(prefix).len() <= ub(v).len() ==> starts(ub(v), ub(prefix)))
    }) by {
        let q = qkey(i, s, v);
        lemma_lex(q, p, 0xFFu8);
        lemma_qparts(i, s, v);
        let n = ks::<usize>() as int;
        let hit = !blt(q, p) && blt(q, p.push(0xFFu8));
        if hit {
            assert(q.subrange(0, n) =~= q.subrange(0, p.len() as int).subrange(0, n));
            assert(p.subrange(0, n) =~= kb(sym));
            if ub(prefix).len() <= ub(v).len() {
                assert(ub(v).subrange(0, ub(prefix).len() as int) =~= q.subrange(0, p.len() as int).subrange(n, p.len() as int));
                assert(p.subrange(n, p.len() as int) =~= ub(prefix));
            }
        }
        if s == sym && starts(ub(v), ub(prefix)) {
            assert forall|j: int| 0 <= j < ub(prefix).len() implies ub(v)[j] == ub(prefix)[j] by { assert(ub(v).subrange(0, ub(prefix).len() as int)[j] == ub(prefix)[j]); }
            assert(q.subrange(0, p.len() as int) =~= p);
            if q.len() > p.len() {
                if ub(prefix).len() < ub(v).len() { assert(q[p.len() as int] == ub(v)[ub(prefix).len() as int]); } else { assert(q[p.len() as int] == 0u8); }
            }
        }
    }
}

#[verifier::external_body]
pub struct PathBuf { x: u8 }
#[verifier::external_body]
pub struct TempDir { x: u8 }
#[verifier::reject_recursive_types(T)]
//@item src=core/src/annostorage/ondisk.rs item="struct AnnoStorageImpl"
//@rewrite (?m)^    ([a-z]\w*): => pub $1:
//@rewrite (?s)where.*?DeserializeOwned,\n\{ => {
//@rewrite tempfile::TempDir => TempDir

pub type Model<T> = Map<(T, AnnoKey), String>;
pub open spec fn with_key<T>(m: Model<T>, k: AnnoKey) -> Set<(T, AnnoKey)> { m.dom().filter(|p: (T, AnnoKey)| p.1 == k) }
pub proof fn lemma_empty<T>() ensures forall|key: AnnoKey| #![trigger with_key(Model::<T>::empty(), key)] with_key(Model::<T>::empty(), key).len() == 0
{
    assert forall|key: AnnoKey| #![trigger with_key(Model::<T>::empty(), key)] with_key(Model::<T>::empty(), key).len() == 0 by { assert(with_key(Model::<T>::empty(), key) =~= Set::empty()); }
}
pub proof fn lemma_sizes<T>(m: Model<T>) ensures forall|k: AnnoKey| #![trigger with_key(m, k)] with_key(m, k).len() <= m.len()
{
    assert forall|k: AnnoKey| #![trigger with_key(m, k)] with_key(m, k).len() <= m.len() by { vstd::set_lib::lemma_len_subset(with_key(m, k), m.dom()); }
}
pub proof fn lemma_count_put<T>(m: Model<T>, i: T, key: AnnoKey, v: String)
    ensures ({
        let n = m.insert((i, key), v);
        let new = !m.dom().contains((i, key));
        &&& n.len() == m.len() + if new { 1int } else { 0 }
        &&& forall|k: AnnoKey| #![trigger with_key(n, k)] with_key(n, k).len() == with_key(m, k).len() + if new && k == key { 1int } else { 0 }
    }),
{
    let n = m.insert((i, key), v);
    let new = !m.dom().contains((i, key));
    assert(n.dom() =~= m.dom().insert((i, key)));
    assert forall|k: AnnoKey| #![trigger with_key(n, k)] with_key(n, k).len() == with_key(m, k).len() + if new && k == key { 1int } else { 0 } by {
        if k == key { assert(with_key(n, k) =~= with_key(m, k).insert((i, key))); assert(with_key(m, k).contains((i, key)) == !new); } else { assert(with_key(n, k) =~= with_key(m, k)); }
    }
}
pub proof fn lemma_count_del<T>(m: Model<T>, i: T, key: AnnoKey)
    requires m.dom().contains((i, key)),
    ensures
        m.remove((i, key)).len() == m.len() - 1, with_key(m, key).len() > 0,
        forall|k: AnnoKey| #![trigger with_key(m.remove((i, key)), k)] with_key(m.remove((i, key)), k).len() == with_key(m, k).len() - if k == key { 1int } else { 0 },
{
    let n = m.remove((i, key));
    assert(n.dom() =~= m.dom().remove((i, key)));
    assert(with_key(m, key).contains((i, key)));
    assert forall|k: AnnoKey| #![trigger with_key(n, k)] with_key(n, k).len() == with_key(m, k).len() - if k == key { 1int } else { 0 } by {
        if k == key { assert(with_key(n, k) =~= with_key(m, k).remove((i, key))); } else { assert(with_key(n, k) =~= with_key(m, k)); }
    }
}

impl<T> AnnoStorageImpl<T> {
    /// item `i` has the value `v` for the key with this symbol
    pub open spec fn has(&self, i: T, s: usize, v: String) -> bool { self.by_container.view().dom().contains(ckey(i, s)) && self.by_container.view()[ckey(i, s)] == v }
    /// both tables contain the same annotations and nothing else
    pub open spec fn indexed(&self) -> bool {
        &&& self.anno_key_symbols.wf()
        &&& forall|i: T, s: usize, v: String| #![trigger self.by_anno_qname.view().dom().contains(qkey(i, s, v))] #![trigger self.has(i, s, v)] self.by_anno_qname.view().dom().contains(qkey(i, s, v)) <==> self.has(i, s, v)
        &&& forall|q: Seq<u8>| #![trigger self.by_anno_qname.view().dom().contains(q)] self.by_anno_qname.view().dom().contains(q) ==> exists|i: T, s: usize, v: String| q == #[trigger] qkey(i, s, v)
        &&& forall|c: Seq<u8>| #![trigger self.by_container.view().dom().contains(c)] self.by_container.view().dom().contains(c) ==> exists|i: T, s: usize| c == #[trigger] ckey(i, s)
    }
    pub open spec fn maps(&self, m: Model<T>) -> bool {
        &&& forall|i: T, s: usize, v: String| #![trigger self.has(i, s, v)] self.has(i, s, v) ==> self.anno_key_symbols.val(s) is Some
            && m.dom().contains((i, self.anno_key_symbols.val(s)->0)) && m[(i, self.anno_key_symbols.val(s)->0)] == v
        &&& forall|i: T, key: AnnoKey| #![trigger m.dom().contains((i, key))] m.dom().contains((i, key)) ==> self.anno_key_symbols.sym().dom().contains(key) && self.has(i, self.anno_key_symbols.sym()[key], m[(i, key)])
    }
    pub open spec fn counts(&self, m: Model<T>) -> bool {
        &&& forall|key: AnnoKey| #![trigger self.anno_key_sizes.view().dom().contains(key)] self.anno_key_sizes.view().dom().contains(key) <==> with_key(m, key).len() > 0
        &&& forall|key: AnnoKey| #![trigger self.anno_key_sizes.view()[key]] self.anno_key_sizes.view().dom().contains(key) ==> self.anno_key_sizes.view()[key] == with_key(m, key).len()
    }
    pub open spec fn largest(&self, m: Model<T>) -> bool {
        forall|i: T, key: AnnoKey| #![trigger m.dom().contains((i, key))] m.dom().contains((i, key)) ==> self.largest_item is Some && !lt(self.largest_item->0, i)
    }
    /// the storage represents the map `m`
    pub open spec fn rep(&self, m: Model<T>) -> bool { self.indexed() && self.maps(m) && self.counts(m) && self.largest(m) }
}
/// one annotation is put into both tables, replacing the value `o`
pub proof fn lemma_put<T>(s: AnnoStorageImpl<T>, f: AnnoStorageImpl<T>, m: Model<T>, item: T, sym: usize, key: AnnoKey, val: String)
    requires
        s.rep(m), f.anno_key_symbols.wf(),
        f.anno_key_symbols.val(sym) == Some(key), f.anno_key_symbols.sym() == s.anno_key_symbols.sym().insert(key, sym) || f.anno_key_symbols.sym() == s.anno_key_symbols.sym(),
        forall|id: usize| #![trigger f.anno_key_symbols.val(id)] s.anno_key_symbols.val(id) is Some ==> f.anno_key_symbols.val(id) == s.anno_key_symbols.val(id),
        f.by_container.view() == s.by_container.view().insert(ckey(item, sym), val),
        ({
            let c = ckey(item, sym);
            let q = s.by_anno_qname.view().dom();
            let q1 = if s.by_container.view().dom().contains(c) { q.remove(qkey(item, sym, s.by_container.view()[c])) } else { q };
            f.by_anno_qname.view().dom() == q1.insert(qkey(item, sym, val))
        }),
    ensures
        f.indexed(), f.maps(m.insert((item, key), val)),
        m.dom().contains((item, key)) <==> s.by_container.view().dom().contains(ckey(item, sym)),
{
    lemma_ckey::<T>(); lemma_qkey::<T>();
    let n = m.insert((item, key), val);
    assert forall|i: T, x: usize, v: String| #![trigger f.has(i, x, v)] f.has(i, x, v) <==> (if i == item && x == sym { v == val } else { s.has(i, x, v) }) by { assert(ckey(i, x) == ckey(item, sym) ==> i == item && x == sym); }
    assert forall|x: usize| #![trigger f.anno_key_symbols.val(x)] f.anno_key_symbols.val(x) == Some(key) implies x == sym by { inverse(f.anno_key_symbols, key, x); inverse(f.anno_key_symbols, key, sym); }
    if s.by_container.view().dom().contains(ckey(item, sym)) {
        let v = s.by_container.view()[ckey(item, sym)];
        assert(s.has(item, sym, v));
        assert(m.dom().contains((item, key)));
    }
    if m.dom().contains((item, key)) {
        let x = s.anno_key_symbols.sym()[key];
        assert(s.has(item, x, m[(item, key)]));
        inverse(s.anno_key_symbols, key, x);
        assert(s.anno_key_symbols.val(x) == Some(key));
        assert(f.anno_key_symbols.val(x) == Some(key));
    }
    assert forall|i: T, x: usize, v: String| #![trigger f.by_anno_qname.view().dom().contains(qkey(i, x, v))] #![trigger f.has(i, x, v)] f.by_anno_qname.view().dom().contains(qkey(i, x, v)) <==> f.has(i, x, v) by {
        assert(s.by_anno_qname.view().dom().contains(qkey(i, x, v)) <==> s.has(i, x, v));
        assert(qkey(i, x, v) == qkey(item, sym, val) ==> i == item && x == sym && v == val);
        if s.by_container.view().dom().contains(ckey(item, sym)) {
            let o = s.by_container.view()[ckey(item, sym)];
            assert(qkey(i, x, v) == qkey(item, sym, o) ==> i == item && x == sym && v == o);
        }
    }
    assert forall|i: T, x: usize, v: String| #![trigger f.has(i, x, v)] f.has(i, x, v) implies f.anno_key_symbols.val(x) is Some && n.dom().contains((i, f.anno_key_symbols.val(x)->0)) && n[(i, f.anno_key_symbols.val(x)->0)] == v by {
        if !(i == item && x == sym) { assert(s.has(i, x, v)); }
    }
    assert forall|i: T, k: AnnoKey| #![trigger n.dom().contains((i, k))] n.dom().contains((i, k)) implies f.anno_key_symbols.sym().dom().contains(k) && f.has(i, f.anno_key_symbols.sym()[k], n[(i, k)]) by {
        inverse(f.anno_key_symbols, key, sym);
        if !(i == item && k == key) {
            assert(m.dom().contains((i, k)));
            let x = s.anno_key_symbols.sym()[k];
            assert(s.has(i, x, m[(i, k)]));
            inverse(s.anno_key_symbols, k, x); inverse(f.anno_key_symbols, k, x);
            assert(f.has(i, x, n[(i, k)]));
        }
    }
}
/// one annotation is taken out of both tables
pub proof fn lemma_take<T>(s: AnnoStorageImpl<T>, f: AnnoStorageImpl<T>, m: Model<T>, item: T, sym: usize, key: AnnoKey)
    requires
        s.rep(m), f.anno_key_symbols.wf(), m.dom().contains((item, key)),
        s.anno_key_symbols.sym().dom().contains(key), s.anno_key_symbols.sym()[key] == sym,
        f.by_container.view() == s.by_container.view().remove(ckey(item, sym)),
        f.by_anno_qname.view() == s.by_anno_qname.view().remove(qkey(item, sym, m[(item, key)])),
        f.anno_key_symbols == s.anno_key_symbols || (with_key(m.remove((item, key)), key).len() == 0
            && f.anno_key_symbols.sym() == s.anno_key_symbols.sym().remove(key)
            && forall|id: usize| #![trigger f.anno_key_symbols.val(id)] f.anno_key_symbols.val(id) == (if id == sym { None } else { s.anno_key_symbols.val(id) })),
    ensures f.indexed(), f.maps(m.remove((item, key))),
{
    lemma_ckey::<T>(); lemma_qkey::<T>();
    let n = m.remove((item, key));
    let w = m[(item, key)];
    assert(s.has(item, sym, w));
    inverse(s.anno_key_symbols, key, sym);
    assert forall|i: T, x: usize, v: String| #![trigger f.has(i, x, v)] f.has(i, x, v) <==> (!(i == item && x == sym) && s.has(i, x, v)) by { assert(ckey(i, x) == ckey(item, sym) ==> i == item && x == sym); }
    assert forall|i: T, x: usize, v: String| #![trigger f.by_anno_qname.view().dom().contains(qkey(i, x, v))] #![trigger f.has(i, x, v)] f.by_anno_qname.view().dom().contains(qkey(i, x, v)) <==> f.has(i, x, v) by {
        assert(s.by_anno_qname.view().dom().contains(qkey(i, x, v)) <==> s.has(i, x, v));
        assert(qkey(i, x, v) == qkey(item, sym, w) ==> i == item && x == sym && v == w);
    }
    assert forall|q: Seq<u8>| #![trigger f.by_anno_qname.view().dom().contains(q)] f.by_anno_qname.view().dom().contains(q) implies exists|i: T, s: usize, v: String| q == #[trigger] qkey(i, s, v) by { assert(s.by_anno_qname.view().dom().contains(q)); }
    assert forall|i: T, x: usize, v: String| #![trigger f.has(i, x, v)] f.has(i, x, v) implies f.anno_key_symbols.val(x) is Some && n.dom().contains((i, f.anno_key_symbols.val(x)->0)) && n[(i, f.anno_key_symbols.val(x)->0)] == v by {
        assert(s.has(i, x, v));
        let k = s.anno_key_symbols.val(x)->0;
        inverse(s.anno_key_symbols, k, x);
        if f.anno_key_symbols != s.anno_key_symbols && x == sym {
            assert(k == key);
            assert(n.dom().contains((i, key)));
            assert(with_key(n, key).contains((i, key)));
        }
    }
    assert forall|i: T, k: AnnoKey| #![trigger n.dom().contains((i, k))] n.dom().contains((i, k)) implies f.anno_key_symbols.sym().dom().contains(k) && f.has(i, f.anno_key_symbols.sym()[k], n[(i, k)]) by {
        assert(m.dom().contains((i, k)));
        let x = s.anno_key_symbols.sym()[k];
        assert(s.has(i, x, m[(i, k)]));
        inverse(s.anno_key_symbols, k, x);
        if k == key { assert(with_key(n, key).contains((i, key))); }
        assert(f.has(i, x, n[(i, k)]));
    }
}
pub proof fn lemma_unique<T>(s: AnnoStorageImpl<T>, m: Model<T>) ensures s.rep(m) ==> forall|m1: Model<T>| #![trigger s.rep(m1)] s.rep(m1) ==> m1 == m
{
    if s.rep(m) {
        assert forall|m1: Model<T>| #![trigger s.rep(m1)] s.rep(m1) implies m1 == m by {
            assert forall|p: (T, AnnoKey)| #![trigger m1.dom().contains(p)] m1.dom().contains(p) implies m.dom().contains(p) && m[p] == m1[p] by { assert(m1.dom().contains((p.0, p.1))); inverse(s.anno_key_symbols, p.1, s.anno_key_symbols.sym()[p.1]); assert(s.has(p.0, s.anno_key_symbols.sym()[p.1], m1[p])); }
            assert forall|p: (T, AnnoKey)| #![trigger m.dom().contains(p)] m.dom().contains(p) implies m1.dom().contains(p) by { assert(m.dom().contains((p.0, p.1))); inverse(s.anno_key_symbols, p.1, s.anno_key_symbols.sym()[p.1]); assert(s.has(p.0, s.anno_key_symbols.sym()[p.1], m[p])); }
            assert(m1 =~= m);
        }
    }
}

// ---- the code ---------------------------------------------------------------------------------
//@inlined new clear insert remove get push len is_empty contains_key get_symbol default extend from clone
//@fn src=core/src/annostorage/ondisk.rs item=create_by_container_key
//@rewrite <T: FixedSizeKeySerializer> => <T>
//@rewrite (\w+)\.create_key\(\)\.to_vec\(\) => create_key(&$1)
//@rewrite (\w+)\.create_key\(\) => create_key(&$1)
//@spec
    ensures ret.view() == ckey(item, anno_key_symbol),
//@end
//@fn src=core/src/annostorage/ondisk.rs item=create_by_anno_qname_key
//@rewrite <T: FixedSizeKeySerializer> => <T>
//@rewrite anno_value: &str => anno_value: &String
//@rewrite (\w+)\.create_key\(\)\.to_vec\(\) => create_key(&$1)
//@rewrite let item_key: &\[u8\] = &item\.create_key\(\); => let item_key = create_key(&item);
//@rewrite anno_value\.as_bytes\(\) => as_bytes(anno_value)
//@rewrite result\.push\(\*b\) => result.push(b)
//@forname 0 it
//@spec
    ensures ret.view() == qkey(item, anno_key_symbol, *anno_value),
//@loop 0
    invariant it.seq() == ub(*anno_value), result.view() == kb(anno_key_symbol) + ub(*anno_value).take(it.index() as int),
//@at after_loop 0
    proof { assert(ub(*anno_value).take(ub(*anno_value).len() as int) =~= ub(*anno_value)); }
//@at fn_end
    proof { assert(result.view() =~= qkey(item, anno_key_symbol, *anno_value)); }
//@end
//@fn src=core/src/annostorage/ondisk.rs item=create_by_anno_qname_prefix_range
//@rewrite value_prefix: &str => value_prefix: &String
//@rewrite (\w+)\.create_key\(\)\.to_vec\(\) => create_key(&$1)
//@rewrite value_prefix\.as_bytes\(\) => as_bytes(value_prefix)
//@spec
    ensures
        // every annotation whose value starts with the prefix, and only annotations of this key
        forall|i: T, s: usize, v: String| #![trigger qkey(i, s, v)] (s == anno_key_symbol && starts(ub(v), ub(*value_prefix)) ==> in_range(ret, qkey(i, s, v))) && (in_range(ret, qkey(i, s, v)) ==> s == anno_key_symbol)
            && (in_range(ret, qkey(i, s, v)) && ub(*value_prefix).len() <= ub(v).len() ==> starts(ub(v), ub(*value_prefix))),
//@rewrite fn create_by_anno_qname_prefix_range => fn create_by_anno_qname_prefix_range<T>
//@at fn_start
    proof { lemma_prefix_range::<T>(anno_key_symbol, *value_prefix); }
//@end
//@fn src=core/src/annostorage/ondisk.rs item=create_by_anno_qname_value_range
//@rewrite <T: FixedSizeKeySerializer> => <T>
//@rewrite value: &str => value: &String
//@rewrite (\w+)\.create_key\(\)\.to_vec\(\) => create_key(&$1)
//@rewrite value\.as_bytes\(\) => as_bytes(value)
//@rewrite T::key_size\(\) => key_size::<T>()
//@spec
    ensures
        // exactly the annotations with this key and value
        forall|i: T, s: usize, v: String| #![trigger qkey(i, s, v)] in_range(ret.0, qkey(i, s, v)) && qkey(i, s, v).len() == ret.1 <==> s == anno_key_symbol && v == *value,
//@at fn_start
    proof { lemma_value_range::<T>(anno_key_symbol, *value); }
//@end
impl<T> AnnoStorageImpl<T> {
//@fn src=core/src/annostorage/ondisk.rs item="AnnotationStorage for AnnoStorageImpl::insert"
//@rewrite anno\.key\.clone\(\) => clone_of(&anno.key)
//@rewrite anno\.val\.clone\(\) => clone_of(&anno.val)
//@rewrite \bitem\.clone\(\) => clone_of(&item)
//@rewrite (?s)\.get\(&by_container_key\)\?\s*\.map\(\|v\| v\.into_owned\(\)\) => .get(&by_container_key)?
//@rewrite old_value != anno\.val\.as_str\(\) => ne_text(&old_value, &anno.val)
//@rewrite (?s)self\s*\.largest_item\s*\.as_ref\(\)\s*\.is_none_or\(\|largest_item\| item <= \*largest_item\) => (match &self.largest_item { None => true, Some(largest_item) => less_eq(&item, largest_item) })
//@rewrite self\.largest_item\.clone\(\) => clone_of(&self.largest_item)
//@rewrite largest_item < item => less(&largest_item, &item)
//@rewrite \.entry\(anno\.key\)\.or_insert\(0\) => .entry_or_insert(anno.key, 0)
//@spec
    requires exists|m: Model<T>| #[trigger] old(self).rep(m), forall|m: Model<T>| #[trigger] old(self).rep(m) ==> m.len() < usize::MAX,
    ensures
        ret.is_ok() ==> forall|m: Model<T>| #![trigger old(self).rep(m)] old(self).rep(m) ==> final(self).rep(m.insert((item, anno.key), anno.val)),
//@at fn_start
    let ghost s0 = *self;
    let ghost m0 = choose|m: Model<T>| s0.rep(m);
    let ghost key = anno.key;
    let ghost val = anno.val;
    proof { lemma_unique(s0, m0); lt_order::<T>(); lemma_ckey::<T>(); lemma_qkey::<T>(); lemma_sizes(m0); lemma_count_put(m0, item, key, val); }
//@at fn_end
    proof {
        let m1 = m0.insert((item, key), val);
        let c = ckey(item, anno_key_symbol);
        let q = s0.by_anno_qname.view();
        let o = s0.by_container.view()[c];
        if s0.by_container.view().dom().contains(c) {
            assert(s0.has(item, anno_key_symbol, o));
            assert(already_existed);
        }
        assert(already_existed == s0.by_container.view().dom().contains(c));
        if already_existed && o == val {
            assert(self.by_anno_qname.view().dom() =~= q.dom().remove(qkey(item, anno_key_symbol, o)).insert(qkey(item, anno_key_symbol, val)));
        } else if already_existed {
            assert(self.by_anno_qname.view().dom() =~= q.dom().remove(qkey(item, anno_key_symbol, o)).insert(qkey(item, anno_key_symbol, val)));
        } else {
            assert(self.by_anno_qname.view().dom() =~= q.dom().insert(qkey(item, anno_key_symbol, val)));
        }
        lemma_put(s0, *self, m0, item, anno_key_symbol, key, val);
        assert(self.counts(m1));
        assert(self.largest(m1));
    }
//@end
//@fn src=core/src/annostorage/ondisk.rs item="AnnotationStorage for AnnoStorageImpl::remove_annotation_for_item"
//@rewrite Cow<'_, str> => String
//@rewrite return Ok\(Some\(Cow::Owned\(anno\.val\)\)\); => proof { lemma_take(s0, *self, m0, *item, symbol_id, *key); assert(self.counts(n0)); assert(self.largest(n0)); } return Ok(Some(anno.val));
//@rewrite \bitem\.clone\(\) => clone_of(item)
//@rewrite \bkey\.clone\(\) => clone_of(key)
//@spec
    requires exists|m: Model<T>| #[trigger] old(self).rep(m),
    ensures
        ret matches Ok(v) ==> forall|m: Model<T>| #![trigger old(self).rep(m)] old(self).rep(m) ==> final(self).rep(m.remove((*item, *key)))
            && v == (if m.dom().contains((*item, *key)) { Some(m[(*item, *key)]) } else { None::<String> }),
//@at fn_start
    let ghost s0 = *self;
    let ghost m0 = choose|m: Model<T>| s0.rep(m);
    let ghost n0 = m0.remove((*item, *key));
    proof {
        lemma_unique(s0, m0); lemma_ckey::<T>(); lemma_qkey::<T>(); lemma_sizes(m0);
        let x = s0.anno_key_symbols.sym()[*key];
        if s0.anno_key_symbols.sym().dom().contains(*key) { inverse(s0.anno_key_symbols, *key, x); if s0.by_container.view().dom().contains(ckey(*item, x)) { assert(s0.has(*item, x, s0.by_container.view()[ckey(*item, x)])); } }
        if m0.dom().contains((*item, *key)) { lemma_count_del(m0, *item, *key); assert(s0.has(*item, x, m0[(*item, *key)])); } else { assert(n0 =~= m0); }
    }
//@at fn_end
    proof {
        assert(!m0.dom().contains((*item, *key)));
        assert(self.by_container.view() =~= s0.by_container.view());
        assert(forall|i: T, s: usize, v: String| #![trigger self.has(i, s, v)] self.has(i, s, v) == s0.has(i, s, v));
        assert(self.rep(m0));
    }
//@end
//@fn src=core/src/annostorage/ondisk.rs item="AnnotationStorage for AnnoStorageImpl::has_value_for_item"
//@rewrite \bitem\.clone\(\) => clone_of(item)
//@spec
    ensures ret matches Ok(v) ==> forall|m: Model<T>| #![trigger self.rep(m)] self.rep(m) ==> v == m.dom().contains((*item, *key)),
//@at fn_start
    proof {
        assert forall|m: Model<T>| #![trigger self.rep(m)] self.rep(m) implies (m.dom().contains((*item, *key)) <==> self.anno_key_symbols.sym().dom().contains(*key) && self.by_container.view().dom().contains(ckey(*item, self.anno_key_symbols.sym()[*key]))) by {
            let x = self.anno_key_symbols.sym()[*key];
            inverse(self.anno_key_symbols, *key, x);
            if m.dom().contains((*item, *key)) { assert(self.has(*item, x, m[(*item, *key)])); }
            if self.anno_key_symbols.sym().dom().contains(*key) && self.by_container.view().dom().contains(ckey(*item, x)) { assert(self.has(*item, x, self.by_container.view()[ckey(*item, x)])); }
        }
    }
//@end
//@fn src=core/src/annostorage/ondisk.rs item="AnnotationStorage for AnnoStorageImpl::get_value_for_item"
//@rewrite Cow<'_, str> => String
//@rewrite \bitem\.clone\(\) => clone_of(item)
//@rewrite (?s)return match val \{.*?\n {16}\}; => return Ok(Some(val));
//@spec
    ensures ret matches Ok(v) ==> forall|m: Model<T>| #![trigger self.rep(m)] self.rep(m) ==> v == (if m.dom().contains((*item, *key)) { Some(m[(*item, *key)]) } else { None::<String> }),
//@at fn_start
    proof {
        assert forall|m: Model<T>| #![trigger self.rep(m)] self.rep(m) implies ({
            let x = self.anno_key_symbols.sym()[*key];
            &&& m.dom().contains((*item, *key)) <==> self.anno_key_symbols.sym().dom().contains(*key) && self.by_container.view().dom().contains(ckey(*item, x))
            &&& m.dom().contains((*item, *key)) ==> self.by_container.view()[ckey(*item, x)] == m[(*item, *key)]
        }) by {
            let x = self.anno_key_symbols.sym()[*key];
            inverse(self.anno_key_symbols, *key, x);
            if m.dom().contains((*item, *key)) { assert(self.has(*item, x, m[(*item, *key)])); }
            if self.anno_key_symbols.sym().dom().contains(*key) && self.by_container.view().dom().contains(ckey(*item, x)) { assert(self.has(*item, x, self.by_container.view()[ckey(*item, x)])); }
        }
    }
//@end
//@fn src=core/src/annostorage/ondisk.rs item="AnnotationStorage for AnnoStorageImpl::clear"
//@spec
    // (the symbols of the annotation keys are kept, they are not visible)
    requires old(self).anno_key_symbols.wf(),
    ensures ret.is_ok() && final(self).rep(Model::<T>::empty()),
//@at fn_end
    proof { lemma_empty::<T>(); }
//@end
}
}
