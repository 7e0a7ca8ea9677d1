// Verus unit: /repo/core/src/dfs.rs and the distance helpers of /repo/core/src/graph/storage/mod.rs
#![allow(unused)]
use vstd::prelude::*;
use std::ops::Bound;
verus! {
//@include graphlib.inc

//@include dfslib.inc
// ---- distances ----------------------------------------------------------------------------------
/// t is the end of a walk of n edges beginning at s
pub open spec fn reach(c: &dyn EdgeContainer, s: NodeID, t: NodeID, n: nat) -> bool
    decreases n,
{
    if n == 0 { s == t } else { exists|m: NodeID| #![trigger c.out_seq(m)] reach(c, s, m, (n - 1) as nat) && c.out_seq(m).contains(t) }
}
/// n is the length of the shortest walk from s to t
pub open spec fn level(c: &dyn EdgeContainer, s: NodeID, t: NodeID, n: nat) -> bool {
    reach(c, s, t, n) && forall|k: nat| k < n ==> !reach(c, s, t, k)
}
/// no shortest path is as long as the largest machine number (a graph in memory)
pub open spec fn fits(c: &dyn EdgeContainer, s: NodeID) -> bool {
    forall|t: NodeID, n: nat| #![trigger level(c, s, t, n)] level(c, s, t, n) ==> n < usize::MAX
}
proof fn lemma_pred(c: &dyn EdgeContainer, s: NodeID, t: NodeID, n: nat) -> (m: NodeID)
    requires level(c, s, t, n), n > 0,
    ensures level(c, s, m, (n - 1) as nat), c.out_seq(m).contains(t),
{
    let m = choose|m: NodeID| #![trigger c.out_seq(m)] reach(c, s, m, (n - 1) as nat) && c.out_seq(m).contains(t);
    assert forall|k: nat| k < n - 1 implies !reach(c, s, m, k) by {
        if reach(c, s, m, k) { assert(reach(c, s, t, k + 1)); }
    }
    m
}
proof fn lemma_lower_level(c: &dyn EdgeContainer, s: NodeID, t: NodeID, n: nat, d: nat) -> (y: NodeID)
    requires level(c, s, t, n), d <= n,
    ensures level(c, s, y, d),
    decreases n,
{
    if n == d { t } else { let m = lemma_pred(c, s, t, n); lemma_lower_level(c, s, m, (n - 1) as nat, d) }
}
proof fn lemma_has_level(c: &dyn EdgeContainer, s: NodeID, t: NodeID, n: nat) -> (k: nat)
    requires reach(c, s, t, n),
    ensures level(c, s, t, k), k <= n,
    decreases n,
{
    if exists|k: nat| k < n && reach(c, s, t, k) {
        let k = choose|k: nat| k < n && reach(c, s, t, k);
        lemma_has_level(c, s, t, k)
    } else { n }
}
pub open spec fn known(c: &dyn EdgeContainer, s: NodeID, v: Set<NodeID>, d: nat) -> bool {
    forall|x: NodeID| #![trigger v.contains(x)] v.contains(x) <==> exists|k: nat| k <= d && #[trigger] reach(c, s, x, k)
}
pub open spec fn is_level(c: &dyn EdgeContainer, s: NodeID, v: Seq<NodeID>, d: nat) -> bool {
    forall|x: NodeID| #![trigger v.contains(x)] #![trigger level(c, s, x, d)] v.contains(x) <==> level(c, s, x, d)
}
/// v holds vs and the children of the first n nodes of cur; nx lists exactly the new ones
pub open spec fn expanded(c: &dyn EdgeContainer, v0: Set<NodeID>, v: Set<NodeID>, nx: Seq<NodeID>, cur: Seq<NodeID>, n: int, m: int) -> bool {
    &&& forall|x: NodeID| #![trigger v.contains(x)] v.contains(x) <==> v0.contains(x) || nx.contains(x)
    &&& forall|x: NodeID| #![trigger nx.contains(x)] nx.contains(x) <==> !v0.contains(x) && (child_of(c, cur, n, x) || (0 <= n < cur.len() && c.out_seq(cur[n]).take(m).contains(x)))
}
pub open spec fn child_of(c: &dyn EdgeContainer, cur: Seq<NodeID>, n: int, x: NodeID) -> bool {
    exists|i: int| #![trigger cur[i]] 0 <= i < n && i < cur.len() && c.out_seq(cur[i]).contains(x)
}
proof fn lemma_push_contains(s: Seq<NodeID>, y: NodeID, x: NodeID)
    ensures s.push(y).contains(x) <==> s.contains(x) || x == y,
{
    let t = s.push(y);
    if s.contains(x) { let i = choose|i: int| 0 <= i < s.len() && s[i] == x; assert(t[i] == x); }
    if x == y { assert(t[s.len() as int] == x); }
    if t.contains(x) { let i = choose|i: int| 0 <= i < t.len() && t[i] == x; if i < s.len() { assert(s[i] == x); } }
}
proof fn lemma_next_level(c: &dyn EdgeContainer, s: NodeID, v0: Set<NodeID>, v: Set<NodeID>, nx: Seq<NodeID>, cur: Seq<NodeID>, d: nat)
    requires known(c, s, v0, d), is_level(c, s, cur, d), expanded(c, v0, v, nx, cur, cur.len() as int, 0),
    ensures known(c, s, v, d + 1), is_level(c, s, nx, d + 1),
{
    assert forall|x: NodeID| #![trigger nx.contains(x)] nx.contains(x) <==> level(c, s, x, d + 1) by {
        if nx.contains(x) {
            let i = choose|i: int| #![trigger cur[i]] 0 <= i < cur.len() && c.out_seq(cur[i]).contains(x);
            assert(cur.contains(cur[i]));
            assert(reach(c, s, x, d + 1));
        }
        if level(c, s, x, d + 1) {
            let m = lemma_pred(c, s, x, d + 1);
            assert(cur.contains(m));
            let i = choose|i: int| 0 <= i < cur.len() && cur[i] == m;
            assert(child_of(c, cur, cur.len() as int, x));
        }
    }
    assert forall|x: NodeID| #![trigger v.contains(x)] v.contains(x) <==> exists|k: nat| k <= d + 1 && #[trigger] reach(c, s, x, k) by {
        if nx.contains(x) { assert(reach(c, s, x, d + 1)); }
        if exists|k: nat| k <= d + 1 && #[trigger] reach(c, s, x, k) {
            let k = choose|k: nat| k <= d + 1 && #[trigger] reach(c, s, x, k);
            if k == d + 1 && !v0.contains(x) { assert(level(c, s, x, d + 1)); assert(nx.contains(x)); }
        }
    }
}

//@fn src=core/src/graph/storage/mod.rs item=inclusive_max_distance
//@spec
    ensures
        ret matches Some(m) ==> forall|d: usize| d <= m <==> in_upper(max_distance, d),
        ret is None ==> forall|d: usize| !in_upper(max_distance, d),
//@end
pub open spec fn in_upper(b: std::ops::Bound<usize>, d: usize) -> bool {
    match b { std::ops::Bound::Unbounded => true, std::ops::Bound::Included(m) => d <= m, std::ops::Bound::Excluded(m) => d < m }
}

#[verifier::exec_allows_no_decreases_clause]
//@fn src=core/src/graph/storage/mod.rs item=shortest_distance
//@rewrite? current\.contains\(&target\) => vec_contains(&current, &target)
//@rewrite? FxHashSet::<NodeID>::default => FxHashSet::<NodeID>::default
//@spec
    requires fits(container, source),
    ensures
        ret matches Ok(Some(d)) ==> level(container, source, target, d as nat),
        ret matches Ok(None) ==> forall|n: nat| !reach(container, source, target, n),
//@at before_loop 0
    proof {
        assert forall|x: NodeID| #![trigger visited.view().contains(x)] visited.view().contains(x) <==> exists|k: nat| k <= 0 && #[trigger] reach(container, source, x, k) by {
            if x == source { assert(reach(container, source, x, 0)); }
        }
        assert forall|x: NodeID| #![trigger current@.contains(x)] current@.contains(x) <==> level(container, source, x, 0) by { if x == source { assert(current@[0] == x); } }
    }
//@loop 0
    invariant
        fits(container, source),
        known(container, source, visited.view(), distance as nat),
        is_level(container, source, current@, distance as nat),
        forall|k: nat| k < distance ==> !reach(container, source, target, k),
//@at before_call new 0
    let ghost v0 = visited.view();
    let ghost cur = current@;
    proof {
        if cur.len() > 0 { assert(cur.contains(cur[0])); assert(level(container, source, cur[0], distance as nat)); }
        if reach(container, source, target, distance as nat) { assert(level(container, source, target, distance as nat)); assert(cur.contains(target)); }
    }
//@forname 1 it
//@loop 1
    invariant
        it.seq() == cur,
        expanded(container, v0, visited.view(), next@, cur, it.index(), 0),
//@at loop_start 1
    let ghost n0 = next@;
    proof { assert(container.out_seq(node).take(0) =~= seq![]); }
//@forname 2 jt
//@loop 2
    invariant
        0 <= it.index() < cur.len(), node == cur[it.index()],
        lists(jt.seq(), container.out_seq(node)),
        expanded(container, v0, visited.view(), next@, cur, it.index(), jt.index()),
//@at loop_start 2
    let ghost n1 = next@;
    let ghost j1 = jt.index();
//@at loop_end 2
    proof {
        let o = container.out_seq(node);
        assert(o.take(j1 + 1) =~= o.take(j1).push(child));
        assert forall|x: NodeID| #![trigger o.take(j1 + 1).contains(x)] o.take(j1 + 1).contains(x) <==> o.take(j1).contains(x) || x == child by {
            lemma_push_contains(o.take(j1), child, x);
        }
        assert forall|x: NodeID| #![trigger next@.contains(x)] next@.contains(x) <==> n1.contains(x) || (x == child && !v1.contains(x)) by {
            lemma_push_contains(n1, child, x);
        }
    }
//@at before_call insert 1
    let ghost v1 = visited.view();
//@at before_call Ok 1
    proof {
        assert forall|n: nat| !reach(container, source, target, n) by {
            if reach(container, source, target, n) {
                let k = lemma_has_level(container, source, target, n);
                let y = lemma_lower_level(container, source, target, k, distance as nat);
                assert(current@.contains(y));
            }
        }
    }
//@at after_loop 2
    proof {
        assert(container.out_seq(node).take(container.out_seq(node).len() as int) =~= container.out_seq(node));
        assert(expanded(container, v0, visited.view(), next@, cur, it.index(), container.out_seq(node).len() as int));
        assert forall|x: NodeID| child_of(container, cur, it.index() + 1, x) <==> #[trigger] child_of(container, cur, it.index(), x) || container.out_seq(node).contains(x) by {
            if container.out_seq(node).contains(x) { assert(cur[it.index()] == node); }
        }
    }
//@at after_loop 1
    proof { lemma_next_level(container, source, v0, visited.view(), next@, cur, distance as nat); }
//@end
pub fn vec_contains(v: &Vec<NodeID>, x: &NodeID) -> (r: bool) ensures r == v@.contains(*x) {
    let mut i = 0;
    while i < v.len() invariant i <= v.len(), forall|j: int| 0 <= j < i ==> v@[j] != *x, decreases v.len() - i {
        if v[i] == *x { assert(v@[i as int] == *x); return true; }
        i = i + 1;
    }
    false
}
fn main() {}
} // verus!
