// ---- specification ----------------------------------------------------------------------------
pub open spec fn nexts(c: &dyn EdgeContainer, inverse: bool, n: NodeID) -> Seq<NodeID> {
    if inverse { c.in_seq(n) } else { c.out_seq(n) }
}
/// consecutive nodes are connected by an edge
pub open spec fn walk(c: &dyn EdgeContainer, inverse: bool, p: Seq<NodeID>) -> bool {
    p.len() > 0 && forall|i: int| #![trigger p[i + 1]] 0 <= i < p.len() - 1 ==> nexts(c, inverse, p[i]).contains(p[i + 1])
}
pub open spec fn prefix_of(a: Seq<NodeID>, b: Seq<NodeID>) -> bool { a.len() <= b.len() && b.take(a.len() as int) == a }

//@item src=core/src/dfs.rs item="struct CycleSafeDFS"
//@rewrite (?m)^    (\w+): => pub $1:
//@item src=core/src/dfs.rs item="struct DFSStep"

/// the path which the k-th stack entry stands for
pub open spec fn cand(s: CycleSafeDFS, k: int) -> Seq<NodeID> { s.path@.take(s.stack@[k].1 as int).push(s.stack@[k].0) }

/// p is a path without repeated nodes, not longer than allowed, which was not visited yet
pub open spec fn pending(s: CycleSafeDFS, p: Seq<NodeID>) -> bool {
    &&& walk(s.container, s.inverse, p)
    &&& p.no_duplicates()
    &&& p.len() - 1 <= s.max_distance
    &&& exists|k: int| #![trigger s.stack@[k]] 0 <= k < s.stack@.len() && prefix_of(cand(s, k), p)
}
/// q is a path that ends in one of its earlier nodes (a cycle), not longer than allowed, which was not visited yet
pub open spec fn closing(s: CycleSafeDFS, q: Seq<NodeID>) -> bool {
    &&& closes(s.container, s.inverse, q)
    &&& q.len() - 1 <= s.max_distance
    &&& exists|k: int| #![trigger s.stack@[k]] 0 <= k < s.stack@.len() && prefix_of(cand(s, k), q)
}
pub open spec fn closes(c: &dyn EdgeContainer, inverse: bool, q: Seq<NodeID>) -> bool {
    walk(c, inverse, q) && q.drop_last().no_duplicates() && !q.no_duplicates()
}
pub open spec fn closings_start_at(s: CycleSafeDFS, node: NodeID) -> bool {
    forall|q: Seq<NodeID>| #![trigger closes(s.container, s.inverse, q)] closes(s.container, s.inverse, q) && q.len() - 1 <= s.max_distance && q[0] == node ==> closing(s, q)
}
/// the container has a path which visits a node twice
pub open spec fn has_cycle(c: &dyn EdgeContainer, inverse: bool) -> bool { exists|q: Seq<NodeID>| walk(c, inverse, q) && !q.no_duplicates() }
pub open spec fn wf(s: CycleSafeDFS) -> bool {
    &&& s.path@.no_duplicates()
    &&& s.path@.len() > 0 ==> walk(s.container, s.inverse, s.path@)
    &&& forall|x: NodeID| #![trigger s.nodes_in_path.view().contains(x)] s.nodes_in_path.view().contains(x) <==> s.path@.contains(x)
    &&& forall|k: int| #![trigger s.stack@[k]] 0 <= k < s.stack@.len() ==> s.stack@[k].1 <= s.path@.len() && s.stack@[k].1 <= s.max_distance && walk(s.container, s.inverse, cand(s, k))
    &&& forall|j: int, k: int| #![trigger s.stack@[j], s.stack@[k]] 0 <= j < k < s.stack@.len() ==> s.stack@[j].1 <= s.stack@[k].1
    &&& s.path@.len() == s.last_distance + 1 || (s.path@.len() == s.last_distance && forall|k: int| #![trigger s.stack@[k]] 0 <= k < s.stack@.len() ==> s.stack@[k].1 <= s.last_distance)
}
pub open spec fn same_search(a: CycleSafeDFS, b: CycleSafeDFS) -> bool {
    a.min_distance == b.min_distance && a.max_distance == b.max_distance && a.inverse == b.inverse && a.container == b.container
}
/// the search visits nothing but the paths without repeated nodes which begin at `node`
pub open spec fn starts_at(s: CycleSafeDFS, node: NodeID) -> bool {
    forall|p: Seq<NodeID>| #![trigger pending(s, p)] pending(s, p) <==> walk(s.container, s.inverse, p) && p.no_duplicates() && p.len() - 1 <= s.max_distance && p[0] == node
}

/// every unvisited path of a within the distance range is still unvisited in b, except q
pub open spec fn nothing_skipped(a: CycleSafeDFS, b: CycleSafeDFS, q: Seq<NodeID>) -> bool {
    forall|p: Seq<NodeID>| #![trigger pending(a, p)] pending(a, p) && p.len() - 1 >= a.min_distance && p != q ==> pending(b, p)
}
pub fn last_copied(v: &Vec<(NodeID, usize)>) -> (r: Option<(NodeID, usize)>)
    ensures v@.len() == 0 ==> r is None, v@.len() > 0 ==> r == Some(v@.last()),
{
    if v.len() == 0 { None } else { Some(v[v.len() - 1]) }
}

proof fn lemma_prefix_trans(a: Seq<NodeID>, b: Seq<NodeID>, c: Seq<NodeID>)
    requires prefix_of(a, b), prefix_of(b, c),
    ensures prefix_of(a, c),
{ assert(c.take(a.len() as int) =~= b.take(a.len() as int)); }

proof fn lemma_start(s: CycleSafeDFS, node: NodeID)
    requires s.stack@ == seq![(node, 0usize)], s.path@.len() == 0, s.last_distance == 0, forall|x: NodeID| !s.nodes_in_path.view().contains(x),
    ensures wf(s), starts_at(s, node), closings_start_at(s, node),
{
    assert(s.stack@[0] == (node, 0usize));
    assert(cand(s, 0) =~= seq![node]);
    assert forall|q: Seq<NodeID>| #![trigger closes(s.container, s.inverse, q)] closes(s.container, s.inverse, q) && q.len() - 1 <= s.max_distance && q[0] == node implies closing(s, q) by {
        assert(q.take(1) =~= seq![node]); assert(prefix_of(cand(s, 0), q));
    }
    assert forall|p: Seq<NodeID>| #![trigger pending(s, p)] pending(s, p) <==> walk(s.container, s.inverse, p) && p.no_duplicates() && p.len() - 1 <= s.max_distance && p[0] == node by {
        if walk(s.container, s.inverse, p) && p[0] == node { assert(p.take(1) =~= seq![node]); assert(prefix_of(cand(s, 0), p)); }
        if pending(s, p) { assert(p.take(1)[0] == node); }
    }
}

/// visiting the top entry: what is left afterwards (children pushed or not)
pub open spec fn entered(a: CycleSafeDFS, b: CycleSafeDFS) -> bool {
    let q = cand(a, a.stack@.len() - 1);
    &&& same_search(a, b)
    &&& wf(b)
    &&& forall|p: Seq<NodeID>| #![trigger pending(b, p)] #![trigger pending(a, p)] p != q ==> (pending(a, p) <==> pending(b, p))
    &&& b.cycle_detected == (a.cycle_detected || !q.no_duplicates())
    &&& !q.no_duplicates() ==> walk(a.container, a.inverse, q)
    &&& forall|p: Seq<NodeID>| #![trigger closing(b, p)] #![trigger closing(a, p)] p != q && closing(a, p) ==> closing(b, p)
}

proof fn lemma_cycle(a: CycleSafeDFS, b: CycleSafeDFS)
    requires
        wf(a), a.stack@.len() > 0, same_search(a, b),
        b.stack@ == a.stack@.drop_last(),
        b.path@ == a.path@.take(a.stack@.last().1 as int),
        b.path@.contains(a.stack@.last().0),
        b.last_distance == a.stack@.last().1,
        forall|x: NodeID| #![trigger b.nodes_in_path.view().contains(x)] b.nodes_in_path.view().contains(x) <==> b.path@.contains(x),
        b.cycle_detected,
    ensures entered(a, b), !cand(a, a.stack@.len() - 1).no_duplicates(), !pending(a, cand(a, a.stack@.len() - 1)),
{
    let top = a.stack@.len() - 1;
    let q = cand(a, top);
    let d = a.stack@[top].1 as int;
    let i = choose|i: int| 0 <= i < b.path@.len() && b.path@[i] == a.stack@.last().0;
    assert(q[i] == q[d] && i < d);
    assert forall|k: int| #![trigger b.stack@[k]] 0 <= k < b.stack@.len() implies cand(b, k) == cand(a, k) && b.stack@[k] == a.stack@[k] && b.stack@[k].1 <= d by {
        assert(a.stack@[k].1 <= a.stack@[top].1);
        assert(cand(b, k) =~= cand(a, k));
    }
    assert forall|p: Seq<NodeID>| pending(a, p) implies pending(b, p) by {
        let k = choose|k: int| #![trigger a.stack@[k]] 0 <= k < a.stack@.len() && prefix_of(cand(a, k), p);
        if k == top {
            assert(p.take(q.len() as int)[i] == p[i] && p.take(q.len() as int)[d] == p[d]);
            assert(false);
        }
        assert(b.stack@[k] == a.stack@[k]);
    }
    assert forall|p: Seq<NodeID>| pending(b, p) implies pending(a, p) by {
        let k = choose|k: int| #![trigger b.stack@[k]] 0 <= k < b.stack@.len() && prefix_of(cand(b, k), p);
        assert(b.stack@[k] == a.stack@[k]);
    }
    assert(walk(a.container, a.inverse, q)) by { let _ = a.stack@[top]; }
    assert forall|p: Seq<NodeID>| p != q && closing(a, p) implies closing(b, p) by {
        let k = choose|k: int| #![trigger a.stack@[k]] 0 <= k < a.stack@.len() && prefix_of(cand(a, k), p);
        if k == top {
            if p.len() == q.len() { assert(p.take(q.len() as int) =~= p); assert(false); }
            let h = p.drop_last();
            assert(p.take(q.len() as int)[i] == p[i] && p.take(q.len() as int)[d] == p[d]);
            assert(h[i] == p[i] && h[d] == p[d]);
            assert(false);
        }
        assert(b.stack@[k] == a.stack@[k]);
    }
    if b.path@.len() > 0 { assert(walk(b.container, b.inverse, b.path@)) by { assert forall|j: int| 0 <= j < b.path@.len() - 1 implies nexts(b.container, b.inverse, b.path@[j]).contains(#[trigger] b.path@[j + 1]) by { assert(a.path@[j + 1] == b.path@[j + 1]); } } }
}

/// the stack after pushing the first `n` neighbours
pub open spec fn pushed(a: CycleSafeDFS, st: Seq<(NodeID, usize)>, n: int) -> bool {
    let top = a.stack@.len() - 1;
    let nb = nexts(a.container, a.inverse, a.stack@[top].0);
    &&& st.len() == top + n
    &&& forall|k: int| #![trigger st[k]] 0 <= k < top ==> st[k] == a.stack@[k]
    &&& forall|k: int| #![trigger st[k]] top <= k < top + n ==> st[k].0 == nb[k - top] && st[k].1 == a.stack@[top].1 + 1
}
proof fn lemma_enter(a: CycleSafeDFS, b: CycleSafeDFS)
    requires
        wf(a), a.stack@.len() > 0, same_search(a, b),
        a.stack@.last().1 < a.max_distance ==> pushed(a, b.stack@, nexts(a.container, a.inverse, a.stack@.last().0).len() as int),
        a.stack@.last().1 >= a.max_distance ==> pushed(a, b.stack@, 0),
        b.path@ == cand(a, a.stack@.len() - 1),
        !a.path@.take(a.stack@.last().1 as int).contains(a.stack@.last().0),
        b.last_distance == a.stack@.last().1,
        forall|x: NodeID| #![trigger b.nodes_in_path.view().contains(x)] b.nodes_in_path.view().contains(x) <==> b.path@.contains(x),
        b.cycle_detected == a.cycle_detected,
    ensures entered(a, b), cand(a, a.stack@.len() - 1).no_duplicates(), pending(a, cand(a, a.stack@.len() - 1)),
{
    let top = a.stack@.len() - 1;
    let q = cand(a, top);
    let d = a.stack@[top].1 as int;
    let nb = nexts(a.container, a.inverse, a.stack@[top].0);
    assert(a.stack@.last() == a.stack@[top]);
    assert(q.no_duplicates()) by {
        let h = a.path@.take(d);
        assert forall|i: int, j: int| 0 <= i < q.len() && 0 <= j < q.len() && i != j implies q[i] != q[j] by {
            if j == d { assert(h[i] == q[i]); assert(h.contains(h[i])); } else if i == d { assert(h[j] == q[j]); assert(h.contains(h[j])); } else { assert(a.path@[i] == q[i]); assert(a.path@[j] == q[j]); }
        }
    }
    assert(prefix_of(q, q)) by { assert(q.take(q.len() as int) =~= q); }
    assert(pending(a, q)) by { let _ = a.stack@[top]; }
    assert forall|k: int| #![trigger b.stack@[k]] 0 <= k < top implies cand(b, k) == cand(a, k) && b.stack@[k] == a.stack@[k] && b.stack@[k].1 <= d by {
        assert(a.stack@[k].1 <= a.stack@[top].1);
        assert(cand(b, k) =~= cand(a, k));
    }
    assert forall|k: int| #![trigger b.stack@[k]] top <= k < b.stack@.len() implies cand(b, k) == q.push(nb[k - top]) && walk(b.container, b.inverse, cand(b, k)) && b.stack@[k].1 == d + 1 by {
        assert(cand(b, k) =~= q.push(nb[k - top]));
        let c = cand(b, k);
        assert forall|j: int| 0 <= j < c.len() - 1 implies nexts(b.container, b.inverse, c[j]).contains(#[trigger] c[j + 1]) by {
            if j + 1 < q.len() { assert(q[j + 1] == c[j + 1]); } else { assert(nb.contains(nb[k - top])); }
        }
    }
    assert forall|k: int| #![trigger b.stack@[k]] 0 <= k < b.stack@.len() implies b.stack@[k].1 <= b.path@.len() && b.stack@[k].1 <= b.max_distance && walk(b.container, b.inverse, cand(b, k)) by {
        if k < top { assert(a.stack@[k] == b.stack@[k]); }
    }
    assert forall|p: Seq<NodeID>| p != q && pending(a, p) implies pending(b, p) by {
        let k = choose|k: int| #![trigger a.stack@[k]] 0 <= k < a.stack@.len() && prefix_of(cand(a, k), p);
        if k < top {
            assert(b.stack@[k] == a.stack@[k]);
        } else {
            if p.len() == q.len() { assert(p.take(p.len() as int) =~= p); }
            let c = p[d + 1];
            assert(p.take(q.len() as int)[d] == p[d]);
            assert(nexts(a.container, a.inverse, p[d]).contains(p[d + 1]));
            let j = choose|j: int| 0 <= j < nb.len() && nb[j] == c;
            assert(b.stack@[top + j].0 == c);
            assert(p.take(d + 2) =~= q.push(c)) by {
                assert forall|i: int| 0 <= i < d + 1 implies p[i] == q[i] by { assert(p.take(d + 1)[i] == q[i]); }
            }
            assert(prefix_of(cand(b, top + j), p));
        }
    }
    assert forall|p: Seq<NodeID>| p != q && closing(a, p) implies closing(b, p) by {
        let k = choose|k: int| #![trigger a.stack@[k]] 0 <= k < a.stack@.len() && prefix_of(cand(a, k), p);
        if k < top {
            assert(b.stack@[k] == a.stack@[k]);
        } else {
            if p.len() == q.len() { assert(p.take(p.len() as int) =~= p); }
            let c = p[d + 1];
            assert(p.take(q.len() as int)[d] == p[d]);
            assert(nexts(a.container, a.inverse, p[d]).contains(p[d + 1]));
            let j = choose|j: int| 0 <= j < nb.len() && nb[j] == c;
            assert(b.stack@[top + j].0 == c);
            assert(p.take(d + 2) =~= q.push(c)) by {
                assert forall|i: int| 0 <= i < d + 1 implies p[i] == q[i] by { assert(p.take(d + 1)[i] == q[i]); }
            }
            assert(prefix_of(cand(b, top + j), p));
        }
    }
    assert forall|p: Seq<NodeID>| pending(b, p) implies pending(a, p) by {
        let k = choose|k: int| #![trigger b.stack@[k]] 0 <= k < b.stack@.len() && prefix_of(cand(b, k), p);
        if k < top { assert(b.stack@[k] == a.stack@[k]); } else {
            let c = cand(b, k);
            assert(c.take(q.len() as int) =~= q);
            lemma_prefix_trans(q, c, p);
            assert(a.stack@[top] == a.stack@[top]);
        }
    }
    assert forall|j: int, k: int| #![trigger b.stack@[j], b.stack@[k]] 0 <= j < k < b.stack@.len() implies b.stack@[j].1 <= b.stack@[k].1 by {
        if k < top { assert(a.stack@[j].1 <= a.stack@[k].1); }
    }
}

// ---- the code ---------------------------------------------------------------------------------
impl<'a> CycleSafeDFS<'a> {
//@fn src=core/src/dfs.rs item=CycleSafeDFS::new
//@rewrite? Vec::default\(\) => Vec::new()
//@spec
    ensures wf(ret), starts_at(ret, node), closings_start_at(ret, node), ret.container == container, ret.min_distance == min_distance, ret.max_distance == max_distance, !ret.inverse, !ret.cycle_detected,
//@at fn_start
    proof { assert forall|s: CycleSafeDFS| s.stack@ =~= seq![(node, 0usize)] && s.path@.len() == 0 && s.last_distance == 0 && (forall|x: NodeID| !s.nodes_in_path.view().contains(x)) implies wf(s) && #[trigger] starts_at(s, node) && closings_start_at(s, node) by { lemma_start(s, node); } }
//@end
//@fn src=core/src/dfs.rs item=CycleSafeDFS::new_inverse
//@rewrite? Vec::default\(\) => Vec::new()
//@spec
    ensures wf(ret), starts_at(ret, node), closings_start_at(ret, node), ret.container == container, ret.min_distance == min_distance, ret.max_distance == max_distance, ret.inverse, !ret.cycle_detected,
//@at fn_start
    proof { assert forall|s: CycleSafeDFS| s.stack@ =~= seq![(node, 0usize)] && s.path@.len() == 0 && s.last_distance == 0 && (forall|x: NodeID| !s.nodes_in_path.view().contains(x)) implies wf(s) && #[trigger] starts_at(s, node) && closings_start_at(s, node) by { lemma_start(s, node); } }
//@end
//@fn src=core/src/dfs.rs item=CycleSafeDFS::is_cyclic
//@spec
    ensures ret == self.cycle_detected,
//@end

//@fn src=core/src/dfs.rs item=CycleSafeDFS::enter_node
//@spec
    requires wf(*old(self)), old(self).stack@.len() > 0, entry == old(self).stack@.last(),
    ensures
        ret.is_ok() ==> entered(*old(self), *final(self)),
        ret matches Ok(b) ==> b == (pending(*old(self), cand(*old(self), old(self).stack@.len() - 1)) && old(self).min_distance <= entry.1 <= old(self).max_distance),
        ret.is_ok() ==> cand(*old(self), old(self).stack@.len() - 1).len() == entry.1 + 1,
        ret.is_ok() && !pending(*old(self), cand(*old(self), old(self).stack@.len() - 1)) ==> !pending(*final(self), cand(*old(self), old(self).stack@.len() - 1)),
//@at fn_start
    let ghost s0 = *self;
    proof { assert(s0.stack@[s0.stack@.len() - 1] == entry); assert(cand(s0, s0.stack@.len() - 1).len() == entry.1 + 1); }
//@forname 0 it
//@loop 0
    invariant
        it.seq().len() == s0.path@.len() - dist,
        forall|j: int| #![trigger it.seq()[j]] 0 <= j < it.seq().len() ==> it.seq()[j] == dist + j,
        dist <= s0.path@.len(), s0.path@.no_duplicates(),
        self.path@ == s0.path@, self.stack@ == s0.stack@, self.last_distance == s0.last_distance, same_search(*self, s0), self.cycle_detected == s0.cycle_detected,
        forall|x: NodeID| #![trigger self.nodes_in_path.view().contains(x)] self.nodes_in_path.view().contains(x) <==>
            (exists|j: int| #![trigger s0.path@[j]] 0 <= j < s0.path@.len() && s0.path@[j] == x && (j < dist || j >= dist + it.index())),
//@at before_call contains 0
    proof {
        let h = s0.path@.take(dist as int);
        assert(self.path@ =~= h);
        assert forall|x: NodeID| #![trigger self.nodes_in_path.view().contains(x)] self.nodes_in_path.view().contains(x) <==> self.path@.contains(x) by {
            if self.nodes_in_path.view().contains(x) {
                let j = choose|j: int| #![trigger s0.path@[j]] 0 <= j < s0.path@.len() && s0.path@[j] == x && j < dist;
                assert(h[j] == x);
            }
            if h.contains(x) { let j = choose|j: int| 0 <= j < h.len() && h[j] == x; assert(s0.path@[j] == x); assert(s0.path@.contains(x)); }
        }
    }
    let ghost s1 = *self;
//@at before_call Ok 0
    proof { lemma_cycle(s0, *self); }
//@at before_call Ok 1
    proof {
        let q = cand(s0, s0.stack@.len() - 1);
        assert(self.path@ =~= q);
        assert forall|x: NodeID| #![trigger self.nodes_in_path.view().contains(x)] self.nodes_in_path.view().contains(x) <==> self.path@.contains(x) by {
            if s1.path@.contains(x) { let j = choose|j: int| 0 <= j < s1.path@.len() && s1.path@[j] == x; assert(q[j] == x); }
            if q.contains(x) && x != node { let j = choose|j: int| 0 <= j < q.len() && q[j] == x; assert(s1.path@[j] == x); }
            if x == node { assert(q[dist as int] == x); }
        }
        lemma_enter(s0, *self);
    }
//@forname 1 it
//@loop 1
    invariant
        dist < self.max_distance, self.inverse, node == s0.stack@.last().0, dist == s0.stack@.last().1, s0.stack@.len() > 0,
        lists(it.seq(), nexts(s0.container, s0.inverse, node)),
        pushed(s0, self.stack@, it.index()),
        same_search(*self, s0), s1.path@ == s0.path@.take(dist as int), self.path@ == s1.path@.push(node), self.last_distance == dist, self.cycle_detected == s0.cycle_detected,
        self.nodes_in_path.view() == s1.nodes_in_path.view().insert(node),
//@forname 2 it
//@loop 2
    invariant
        dist < self.max_distance, !self.inverse, node == s0.stack@.last().0, dist == s0.stack@.last().1, s0.stack@.len() > 0,
        lists(it.seq(), nexts(s0.container, s0.inverse, node)),
        pushed(s0, self.stack@, it.index()),
        same_search(*self, s0), s1.path@ == s0.path@.take(dist as int), self.path@ == s1.path@.push(node), self.last_distance == dist, self.cycle_detected == s0.cycle_detected,
        self.nodes_in_path.view() == s1.nodes_in_path.view().insert(node),
//@end

#[verifier::exec_allows_no_decreases_clause]
//@fn src=core/src/dfs.rs item="Iterator for CycleSafeDFS::next"
//@rewrite Self::Item => Result<DFSStep>
//@rewrite? self\.stack\.last\(\)\.copied\(\) => last_copied(&self.stack)
//@spec
    requires wf(*old(self)),
    ensures
        !(ret matches Some(Err(_))) ==> wf(*final(self)) && same_search(*old(self), *final(self)),
        !(ret matches Some(Err(_))) ==> forall|p: Seq<NodeID>| #![trigger pending(*final(self), p)] pending(*final(self), p) ==> pending(*old(self), p),
        ret is None ==> nothing_skipped(*old(self), *final(self), seq![]) && forall|p: Seq<NodeID>| !pending(*final(self), p),
        !(ret matches Some(Err(_))) ==> forall|p: Seq<NodeID>| #![trigger closing(*final(self), p)] #![trigger closing(*old(self), p)] closing(*old(self), p) ==> closing(*final(self), p) || final(self).cycle_detected,
        ret is None ==> forall|p: Seq<NodeID>| !closing(*final(self), p),
        !(ret matches Some(Err(_))) ==> (old(self).cycle_detected ==> final(self).cycle_detected) && (final(self).cycle_detected ==> old(self).cycle_detected || has_cycle(old(self).container, old(self).inverse)),
        ret matches Some(Ok(step)) ==> exists|q: Seq<NodeID>| #![trigger pending(*old(self), q)] pending(*old(self), q) && q.last() == step.node && q.len() == step.distance + 1
            && old(self).min_distance <= step.distance <= old(self).max_distance && nothing_skipped(*old(self), *final(self), q),
//@at fn_start
    let ghost s0 = *self;
//@loop 0
    invariant
        wf(s0), !(result matches Some(Err(_))), wf(*self), same_search(s0, *self),
        forall|p: Seq<NodeID>| #![trigger pending(*self, p)] pending(*self, p) ==> pending(s0, p),
        result is None ==> nothing_skipped(s0, *self, seq![]),
        forall|p: Seq<NodeID>| #![trigger closing(*self, p)] #![trigger closing(s0, p)] closing(s0, p) ==> closing(*self, p) || self.cycle_detected,
        (s0.cycle_detected ==> self.cycle_detected) && (self.cycle_detected ==> s0.cycle_detected || has_cycle(s0.container, s0.inverse)),
        result matches Some(Ok(step)) ==> exists|q: Seq<NodeID>| #![trigger pending(s0, q)] pending(s0, q) && q.last() == step.node && q.len() == step.distance + 1
            && s0.min_distance <= step.distance <= s0.max_distance && nothing_skipped(s0, *self, q),
//@at before_call enter_node 0
    let ghost s1 = *self;
    let ghost q1 = cand(s1, s1.stack@.len() - 1);
    proof { assert forall|b: CycleSafeDFS| #[trigger] entered(s1, b) implies q1.len() == s1.stack@.last().1 + 1 && q1.last() == s1.stack@.last().0 by { } }
//@end
}
