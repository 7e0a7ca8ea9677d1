// Verus unit: /repo/graphannis/src/annis/util/quicksort.rs
#![allow(unused)]
use vstd::prelude::*;
use std::borrow::Cow;
use std::ops::Range;
verus! {

#[derive(Debug)]
pub struct GraphAnnisError { pub code: u64 }
pub type Result<T> = std::result::Result<T, GraphAnnisError>;

// ---- contracts assumed for dependencies --------------------------------------------------------
pub assume_specification [std::cmp::Ordering::is_ge] (o: std::cmp::Ordering) -> (r: bool)
    ensures r == !(o is Less);
pub assume_specification [std::cmp::Ordering::is_lt] (o: std::cmp::Ordering) -> (r: bool)
    ensures r == (o is Less);
pub assume_specification [std::cmp::Ordering::is_le] (o: std::cmp::Ordering) -> (r: bool)
    ensures r == !(o is Greater);
pub assume_specification [std::cmp::Ordering::is_gt] (o: std::cmp::Ordering) -> (r: bool)
    ensures r == (o is Greater);

/// The value a `Cow` dereferences to.
pub uninterp spec fn cow_val<T: Clone>(c: Cow<'_, T>) -> T;
#[verifier::external_body]
pub fn cow_as_ref<'a, 'b, T: Clone>(c: &'b Cow<'a, T>) -> (r: &'b T) ensures *r == cow_val(*c) { c.as_ref() }
#[verifier::external_body]
pub fn cow_into_owned<'a, T: Clone>(c: Cow<'a, T>) -> (r: T) ensures r == cow_val(c) { c.into_owned() }

/// rand: any value of the range may be drawn.
pub mod rand {
    use super::*;
    pub struct Rng0 { pub x: u8 }
    #[verifier::external_body]
    pub fn rng() -> Rng0 { unimplemented!() }
    impl Rng0 {
        #[verifier::external_body]
        pub fn random_range(&mut self, r: Range<usize>) -> (v: usize)
            requires r.start < r.end,
            ensures r.start <= v < r.end,
        { unimplemented!() }
    }
}
#[verifier::external_body]
pub fn range_clone(r: &Range<usize>) -> (c: Range<usize>) ensures c == *r { r.clone() }
#[verifier::external_body]
pub fn arr3_swap<T>(v: &mut [T; 3], a: usize, b: usize)
    requires a < 3, b < 3,
    ensures final(v)@ == old(v)@.update(a as int, old(v)@[b as int]).update(b as int, old(v)@[a as int]),
{ v.swap(a, b) }

pub trait SortableContainer<T: Clone>: Send {
    spec fn view(&self) -> Seq<T>;
    fn try_swap(&mut self, a: usize, b: usize) -> (r: Result<()>)
        ensures r.is_ok() && a < old(self).view().len() && b < old(self).view().len() ==>
            final(self).view() == old(self).view().update(a as int, old(self).view()[b as int]).update(b as int, old(self).view()[a as int]);
    fn try_len(&self) -> (r: Result<usize>) ensures r matches Ok(v) ==> v == self.view().len();
    fn try_get(&self, index: usize) -> (r: Result<Cow<'_, T>>)
        ensures r matches Ok(v) ==> index < self.view().len() && cow_val(v) == self.view()[index as int];
}

// ---- specification ----------------------------------------------------------------------------
/// The order a comparison function decides (comparison functions are pure: assumed).
pub uninterp spec fn cmp_of<F, T>(f: F, a: T, b: T) -> std::cmp::Ordering;
/// total preorder
pub open spec fn consistent<F, T>(f: F) -> bool {
    &&& forall|a: T, b: T| #![trigger cmp_of(f, a, b)] (cmp_of(f, a, b) is Less) == (cmp_of(f, b, a) is Greater)
    &&& forall|a: T, b: T, c: T| #![trigger cmp_of(f, a, b), cmp_of(f, b, c)] !(cmp_of(f, a, b) is Greater) && !(cmp_of(f, b, c) is Greater) ==> !(cmp_of(f, a, c) is Greater)
}
/// in order; nothing is claimed for a function which is no total preorder
pub open spec fn le<F, T>(f: F, a: T, b: T) -> bool { consistent::<F, T>(f) ==> !(cmp_of(f, a, b) is Greater) }
pub open spec fn order_ok<F: FnMut(&T, &T) -> Result<std::cmp::Ordering>, T>(f: F) -> bool {
    &&& forall|a: &T, b: &T| call_requires(f, (a, b))
    &&& forall|a: &T, b: &T, r: Result<std::cmp::Ordering>| call_ensures(f, (a, b), r) ==> (r matches Ok(o) ==> o == cmp_of(f, *a, *b))
}
pub open spec fn sorted<F, T>(f: F, s: Seq<T>, lo: int, hi: int) -> bool {
    forall|i: int, j: int| #![trigger s[i], s[j]] lo <= i < j < hi ==> le(f, s[i], s[j])
}
/// b is a with the items of [lo, hi) rearranged and everything else untouched
pub open spec fn permuted<T>(a: Seq<T>, b: Seq<T>, lo: int, hi: int) -> bool {
    &&& a.len() == b.len()
    &&& 0 <= lo <= hi <= a.len()
    &&& forall|i: int| #![trigger b[i]] 0 <= i < a.len() && !(lo <= i < hi) ==> a[i] == b[i]
    &&& a.subrange(lo, hi).to_multiset() == b.subrange(lo, hi).to_multiset()
}
/// the first n items (counted from the start of the whole container) of [lo, hi) are in order and
/// none of them is greater than any later item of [lo, hi)
pub open spec fn first_n_sorted<F, T>(f: F, s: Seq<T>, lo: int, hi: int, n: int) -> bool {
    forall|i: int, j: int| #![trigger s[i], s[j]] lo <= i < j < hi && i < n ==> le(f, s[i], s[j])
}
pub open spec fn swapped<T>(s: Seq<T>, a: int, b: int) -> Seq<T> { s.update(a, s[b]).update(b, s[a]) }

proof fn lemma_swap_permuted<T>(s: Seq<T>, a: int, b: int, lo: int, hi: int)
    requires 0 <= lo <= a < hi, lo <= b < hi, hi <= s.len(),
    ensures permuted(s, swapped(s, a, b), lo, hi),
{
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    let t = swapped(s, a, b);
    let x = s.subrange(lo, hi);
    let y = t.subrange(lo, hi);
    assert(y =~= x.update(a - lo, x[b - lo]).update(b - lo, x[a - lo]));
    let m = x.update(a - lo, x[b - lo]);
    assert(m.to_multiset() =~= x.to_multiset().insert(x[b - lo]).remove(x[a - lo]));
    assert(m[b - lo] == x[b - lo]);
    assert(y.to_multiset() =~= m.to_multiset().insert(x[a - lo]).remove(m[b - lo]));
    assert(x.contains(x[a - lo]));
    assert(x.contains(x[b - lo]));
    assert(x.to_multiset().contains(x[a - lo]));
    assert(x.to_multiset().contains(x[b - lo]));
    assert(y.to_multiset() =~= x.to_multiset());
}
proof fn lemma_permuted_refl<T>(s: Seq<T>, lo: int, hi: int)
    requires 0 <= lo <= hi <= s.len(),
    ensures permuted(s, s, lo, hi),
{ }
proof fn lemma_permuted_trans<T>(a: Seq<T>, b: Seq<T>, c: Seq<T>, lo: int, hi: int)
    requires permuted(a, b, lo, hi), permuted(b, c, lo, hi),
    ensures permuted(a, c, lo, hi),
{
    assert forall|i: int| #![trigger c[i]] 0 <= i < a.len() && !(lo <= i < hi) implies a[i] == c[i] by { let _ = b[i]; }
}
proof fn lemma_permuted_widen<T>(a: Seq<T>, b: Seq<T>, l1: int, h1: int, l2: int, h2: int)
    requires permuted(a, b, l1, h1), 0 <= l2 <= l1, h1 <= h2 <= a.len(),
    ensures permuted(a, b, l2, h2),
{
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    let al = a.subrange(l2, l1); let am = a.subrange(l1, h1); let ar = a.subrange(h1, h2);
    let bl = b.subrange(l2, l1); let bm = b.subrange(l1, h1); let br = b.subrange(h1, h2);
    assert(al =~= bl);
    assert(ar =~= br);
    assert(a.subrange(l2, h2) =~= al + am + ar);
    assert(b.subrange(l2, h2) =~= bl + bm + br);
    vstd::seq_lib::lemma_multiset_commutative(al, am);
    vstd::seq_lib::lemma_multiset_commutative(al + am, ar);
    vstd::seq_lib::lemma_multiset_commutative(bl, bm);
    vstd::seq_lib::lemma_multiset_commutative(bl + bm, br);
}
/// every item of the rearranged range was an item of the range before
proof fn lemma_permuted_source<T>(a: Seq<T>, b: Seq<T>, lo: int, hi: int, i: int) -> (j: int)
    requires permuted(a, b, lo, hi), lo <= i < hi,
    ensures lo <= j < hi, a[j] == b[i],
{
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    let x = b.subrange(lo, hi);
    assert(x[i - lo] == b[i]);
    assert(x.contains(b[i]));
    assert(x.to_multiset().contains(b[i]));
    let y = a.subrange(lo, hi);
    assert(y.to_multiset().contains(b[i]));
    assert(y.contains(b[i]));
    let k = choose|k: int| 0 <= k < y.len() && y[k] == b[i];
    k + lo
}

/// all of [lo, i] except position k is in order, and the item at k is not greater than anything behind it
pub open spec fn inserting<F, T>(f: F, s: Seq<T>, lo: int, i: int, k: int) -> bool {
    &&& lo <= k <= i < s.len()
    &&& forall|a: int, b: int| #![trigger s[a], s[b]] lo <= a < b <= i && a != k && b != k ==> le(f, s[a], s[b])
    &&& forall|b: int| #![trigger s[b]] k < b <= i ==> le(f, s[k], s[b])
}
proof fn lemma_insert_step<F: FnMut(&T, &T) -> Result<std::cmp::Ordering>, T>(f: F, s: Seq<T>, lo: int, i: int, k: int)
    requires order_ok::<F, T>(f), inserting(f, s, lo, i, k), 0 <= lo < k, cmp_of(f, s[k - 1], s[k]) !is Less,
    ensures inserting(f, swapped(s, k - 1, k), lo, i, k - 1),
{
    let t = swapped(s, k - 1, k);
    assert(consistent::<F, T>(f) ==> cmp_of(f, s[k], s[k - 1]) !is Greater);
    assert forall|b: int| #![trigger t[b]] k - 1 < b <= i implies le(f, t[k - 1], t[b]) by {
        if b > k { assert(t[b] == s[b]); }
    }
    assert forall|a: int, b: int| #![trigger t[a], t[b]] lo <= a < b <= i && a != k - 1 && b != k - 1 implies le(f, t[a], t[b]) by {
        let a0 = if a == k { k - 1 } else { a };
        let b0 = if b == k { k - 1 } else { b };
        assert(t[a] == s[a0]); assert(t[b] == s[b0]);
    }
}

proof fn lemma_insert_stop<F: FnMut(&T, &T) -> Result<std::cmp::Ordering>, T>(f: F, s: Seq<T>, lo: int, i: int, k: int)
    requires order_ok::<F, T>(f), inserting(f, s, lo, i, k), 0 <= lo < k,
    ensures le(f, s[k - 1], s[k]) ==> sorted(f, s, lo, i + 1),
{
    if le(f, s[k - 1], s[k]) {
        assert forall|a: int, b: int| #![trigger s[a], s[b]] lo <= a < b < i + 1 implies le(f, s[a], s[b]) by {
            if b == k && a < k - 1 { assert(le(f, s[a], s[k - 1])); }
        }
    }
}

// ---- the code ---------------------------------------------------------------------------------
//@fn src=graphannis/src/annis/util/quicksort.rs item=insertion_sort
//@rewrite F: FnMut\(&T, &T\) => F: FnMut(&T, &T)
//@rewrite? items\.try_get\(([^)]*)\)\?\.as_ref\(\) => cow_as_ref(&items.try_get($1)?)
//@spec
    requires
        old(items).view().len() < usize::MAX,
        items_range.start <= items_range.end <= old(items).view().len(),
        order_ok::<F, T>(*old(order_func)),
    ensures
        ret.is_ok() ==> *final(order_func) == *old(order_func),
        ret.is_ok() ==> permuted(old(items).view(), final(items).view(), items_range.start as int, items_range.end as int),
        ret.is_ok() ==> sorted(*old(order_func), final(items).view(), items_range.start as int, items_range.end as int),
//@forname 0 it
//@loop 0
    invariant
        items_range.start <= items_range.end <= items.view().len(),
        items.view().len() < usize::MAX,
        order_ok::<F, T>(*order_func),
        *order_func == *old(order_func),
        permuted(old(items).view(), items.view(), items_range.start as int, items_range.end as int),
        sorted(*order_func, items.view(), items_range.start as int, i as int),
//@forname 1 jt
//@loop 1
    invariant_except_break
        jt.seq().len() == i - items_range.start,
        inserting(*order_func, items.view(), items_range.start as int, i as int, i - jt.index()),
    invariant
        items_range.start <= i < items_range.end <= items.view().len(),
        items.view().len() < usize::MAX,
        order_ok::<F, T>(*order_func),
        *order_func == *old(order_func),
        permuted(old(items).view(), items.view(), items_range.start as int, items_range.end as int),
    ensures
        sorted(*order_func, items.view(), items_range.start as int, i + 1),
//@at loop_start 1
    proof { lemma_insert_stop::<F, T>(*order_func, items.view(), items_range.start as int, i as int, j + 1); }
//@at before_call try_swap 0
    proof { lemma_swap_permuted(items.view(), j as int, j + 1, items_range.start as int, items_range.end as int); }
    let ghost s0 = items.view();
//@at after_call try_swap 0
    proof { lemma_permuted_trans(old(items).view(), s0, items.view(), items_range.start as int, items_range.end as int);
        lemma_insert_step(*order_func, s0, items_range.start as int, i as int, j + 1);
    }
//@end

/// s is split at q: nothing in front of q is greater, nothing behind q is smaller
pub open spec fn split_at<F, T>(f: F, s: Seq<T>, lo: int, hi: int, q: int) -> bool {
    &&& lo <= q < hi <= s.len()
    &&& forall|k: int| #![trigger s[k]] lo <= k < q ==> le(f, s[k], s[q])
    &&& forall|k: int| #![trigger s[k]] q < k < hi ==> le(f, s[q], s[k])
}

//@fn src=graphannis/src/annis/util/quicksort.rs item=partition
//@rewrite? \.into_owned\(\) => .vx_into_owned()
//@rewrite? items\.try_get\(([^)]*)\)\?\.vx_into_owned\(\) => cow_into_owned(items.try_get($1)?)
//@rewrite? item_j\.as_ref\(\) => cow_as_ref(&item_j)
//@spec
    requires
        item_range.start < item_range.end <= old(items).view().len(),
        order_ok::<F, T>(*old(order_func)),
    ensures
        ret.is_ok() ==> *final(order_func) == *old(order_func),
        ret.is_ok() ==> permuted(old(items).view(), final(items).view(), item_range.start as int, item_range.end as int),
        ret matches Ok(q) ==> split_at(*old(order_func), final(items).view(), item_range.start as int, item_range.end as int, q as int),
//@loop 0
    invariant
        item_range.start <= i <= j,
        j < item_range.end <= items.view().len(),
        r == item_range.end - 1,
        order_ok::<F, T>(*order_func),
        *order_func == *old(order_func),
        permuted(old(items).view(), items.view(), item_range.start as int, item_range.end as int),
        items.view()[r as int] == item_r,
        forall|k: int| #![trigger items.view()[k]] item_range.start <= k < i ==> le(*order_func, items.view()[k], item_r),
        forall|k: int| #![trigger items.view()[k]] i <= k < j ==> le(*order_func, item_r, items.view()[k]),
//@at before_call try_swap 0
    proof { lemma_swap_permuted(items.view(), i as int, j as int, item_range.start as int, item_range.end as int); }
    let ghost s0 = items.view();
//@at after_call try_swap 0
    proof { lemma_permuted_trans(old(items).view(), s0, items.view(), item_range.start as int, item_range.end as int); }
//@at before_call try_swap 1
    proof { lemma_swap_permuted(items.view(), i as int, r as int, item_range.start as int, item_range.end as int); }
    let ghost s1 = items.view();
//@at after_call try_swap 1
    proof { lemma_permuted_trans(old(items).view(), s1, items.view(), item_range.start as int, item_range.end as int); }
//@end

//@fn src=graphannis/src/annis/util/quicksort.rs item=randomized_partition
//@rewrite? item_range\.clone\(\) => range_clone(&item_range)
//@rewrite? items\.try_get\(([^)]*)\)\?\.into_owned\(\) => cow_into_owned(items.try_get($1)?)
//@rewrite? v\.swap\((\w+), (\w+)\) => arr3_swap(&mut v, $1, $2)
//@spec
    requires
        item_range.start < item_range.end <= old(items).view().len(),
        order_ok::<F, T>(*old(order_func)),
    ensures
        ret.is_ok() ==> *final(order_func) == *old(order_func),
        ret.is_ok() ==> permuted(old(items).view(), final(items).view(), item_range.start as int, item_range.end as int),
        ret matches Ok(q) ==> split_at(*old(order_func), final(items).view(), item_range.start as int, item_range.end as int, q as int),
//@at before_call try_swap 0
    proof { lemma_swap_permuted(items.view(), item_range.end - 1, pivot as int, item_range.start as int, item_range.end as int); }
    let ghost s0 = items.view();
    let ghost lo = item_range.start as int;
    let ghost hi = item_range.end as int;
//@at after_call try_swap 0
    proof {
        assert forall|c: Seq<T>| #[trigger] permuted(items.view(), c, lo, hi) implies permuted(old(items).view(), c, lo, hi) by {
            lemma_permuted_trans(old(items).view(), items.view(), c, lo, hi);
        }
    }
//@end

#[verifier::exec_allows_no_decreases_clause]
//@fn src=graphannis/src/annis/util/quicksort.rs item=quicksort
//@rewrite? items_range\.clone\(\) => range_clone(&items_range)
//@spec
    requires
        items_range.start <= items_range.end <= old(items).view().len(),
        old(items).view().len() < usize::MAX,
        order_ok::<F, T>(*old(order_func)),
    ensures
        ret.is_ok() ==> *final(order_func) == *old(order_func),
        ret.is_ok() ==> permuted(old(items).view(), final(items).view(), items_range.start as int, items_range.end as int),
        ret.is_ok() ==> first_n_sorted(*old(order_func), final(items).view(), items_range.start as int, items_range.end as int, max_size as int),
//@at fn_start
    let ghost s0 = items.view();
    let ghost lo = items_range.start as int;
    let ghost hi = items_range.end as int;
    let ghost of = *order_func;
    proof { lemma_permuted_refl(s0, lo, hi); }
//@at after_call randomized_partition 0
    let ghost s1 = items.view();
//@at after_call quicksort 0
    let ghost s2 = items.view();
    proof { lemma_low(of, s0, s1, s2, lo, hi, q as int, max_size as int); }
//@at after_call quicksort 1
    let ghost s3 = items.view();
    proof { lemma_high(of, s0, s2, s3, lo, hi, q as int, max_size as int); }
//@end

pub open spec fn low_done<F, T>(f: F, s: Seq<T>, lo: int, hi: int, q: int, n: int) -> bool {
    &&& split_at(f, s, lo, hi, q)
    &&& first_n_sorted(f, s, lo, q, n)
}
proof fn lemma_low<F: FnMut(&T, &T) -> Result<std::cmp::Ordering>, T>(f: F, s0: Seq<T>, s1: Seq<T>, s2: Seq<T>, lo: int, hi: int, q: int, n: int)
    requires order_ok::<F, T>(f), permuted(s0, s1, lo, hi), split_at(f, s1, lo, hi, q), permuted(s1, s2, lo, q), first_n_sorted(f, s2, lo, q, n),
    ensures permuted(s0, s2, lo, hi), low_done(f, s2, lo, hi, q, n),
        n <= q ==> first_n_sorted(f, s2, lo, hi, n),
{
    lemma_permuted_widen(s1, s2, lo, q, lo, hi);
    lemma_permuted_trans(s0, s1, s2, lo, hi);
    assert forall|k: int| #![trigger s2[k]] lo <= k < q implies le(f, s2[k], s2[q]) by {
        let j = lemma_permuted_source(s1, s2, lo, q, k);
        assert(s1[q] == s2[q]);
        assert(le(f, s1[j], s1[q]));
    }
    assert forall|k: int| #![trigger s2[k]] q < k < hi implies le(f, s2[q], s2[k]) by {
        assert(s1[q] == s2[q]);
        assert(s1[k] == s2[k]);
    }
    if n <= q {
        assert forall|i: int, j: int| #![trigger s2[i], s2[j]] lo <= i < j < hi && i < n implies le(f, s2[i], s2[j]) by {
            if j > q { assert(le(f, s2[i], s2[q])); assert(le(f, s2[q], s2[j])); }
        }
    }
}
proof fn lemma_high<F: FnMut(&T, &T) -> Result<std::cmp::Ordering>, T>(f: F, s0: Seq<T>, s2: Seq<T>, s3: Seq<T>, lo: int, hi: int, q: int, n: int)
    requires order_ok::<F, T>(f), permuted(s0, s2, lo, hi), low_done(f, s2, lo, hi, q, n), permuted(s2, s3, q, hi), first_n_sorted(f, s3, q, hi, n), q < n,
    ensures permuted(s0, s3, lo, hi), first_n_sorted(f, s3, lo, hi, n),
{
    lemma_permuted_widen(s2, s3, q, hi, lo, hi);
    lemma_permuted_trans(s0, s2, s3, lo, hi);
    assert forall|i: int, j: int| #![trigger s3[i], s3[j]] lo <= i < j < hi && i < n implies le(f, s3[i], s3[j]) by {
        if i < q {
            assert(s3[i] == s2[i]);
            if j < q { assert(s3[j] == s2[j]); }
            else {
                let k = lemma_permuted_source(s2, s3, q, hi, j);
                assert(le(f, s2[i], s2[q]));
                if k != q { assert(le(f, s2[q], s2[k])); }
            }
        }
    }
}

//@fn src=graphannis/src/annis/util/quicksort.rs item=sort_first_n_items
//@spec
    requires
        old(items).view().len() < usize::MAX,
        order_ok::<F, T>(order_func),
    ensures
        ret.is_ok() ==> final(items).view().to_multiset() == old(items).view().to_multiset(),
        ret.is_ok() ==> first_n_sorted(order_func, final(items).view(), 0, old(items).view().len() as int, n as int),
        ret.is_ok() ==> final(items).view().len() == old(items).view().len(),
//@at fn_start
    let ghost s0 = items.view();
//@at fn_end
    proof { lemma_whole(s0, items.view()); }
//@end

//@fn src=graphannis/src/annis/util/quicksort.rs item=sort
//@spec
    requires
        old(items).view().len() < usize::MAX,
        order_ok::<F, T>(order_func),
    ensures
        ret.is_ok() ==> final(items).view().to_multiset() == old(items).view().to_multiset(),
        ret.is_ok() ==> sorted(order_func, final(items).view(), 0, old(items).view().len() as int),
        ret.is_ok() ==> final(items).view().len() == old(items).view().len(),
//@at fn_start
    let ghost s0 = items.view();
//@at fn_end
    proof { lemma_whole(s0, items.view()); }
//@end
proof fn lemma_whole<T>(a: Seq<T>, b: Seq<T>)
    ensures permuted(a, b, 0, a.len() as int) ==> a.to_multiset() == b.to_multiset(),
{
    if permuted(a, b, 0, a.len() as int) {
        assert(a.subrange(0, a.len() as int) =~= a);
        assert(b.subrange(0, a.len() as int) =~= b);
    }
}
}
fn main() {}
