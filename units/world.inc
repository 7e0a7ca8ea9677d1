// ---- specification ----------------------------------------------------------------------------
/// component types are opaque
pub struct CT { pub x: u16 }
pub struct Component { pub ctype: CT, pub name: String, pub layer: String }
pub type Labels = Map<(NodeID, AnnoKey), String>;
pub type EdgeLabels = Map<(Edge, AnnoKey), String>;
/// the contents of a graph: labels of nodes, edges and labels of edges for each component
pub struct World { pub labels: Labels, pub edges: spec_fn(Component) -> Set<Edge>, pub elabels: spec_fn(Component) -> EdgeLabels }
pub uninterp spec fn name_key() -> AnnoKey;
pub uninterp spec fn type_key() -> AnnoKey;
/// the component type with this name
pub uninterp spec fn ctype_of(s: String) -> Option<CT>;
pub axiom fn axiom_keys() ensures name_key() != type_key();

pub open spec fn named(l: Labels, n: NodeID, name: String) -> bool { l.dom().contains((n, name_key())) && l[(n, name_key())] == name }
pub open spec fn known(l: Labels, name: String) -> bool { exists|n: NodeID| #[trigger] named(l, n, name) }
pub open spec fn without_node(l: Labels, n: NodeID) -> Labels { l.remove_keys(l.dom().filter(|p: (NodeID, AnnoKey)| p.0 == n)) }
pub open spec fn touches(e: Edge, n: NodeID) -> bool { e.source == n || e.target == n }
pub open spec fn edges_without(s: Set<Edge>, n: NodeID) -> Set<Edge> { s.filter(|e: Edge| !touches(e, n)) }
pub open spec fn elabels_without(l: EdgeLabels, n: NodeID) -> EdgeLabels { l.remove_keys(l.dom().filter(|p: (Edge, AnnoKey)| touches(p.0, n))) }
pub open spec fn elabels_without_edge(l: EdgeLabels, e: Edge) -> EdgeLabels { l.remove_keys(l.dom().filter(|p: (Edge, AnnoKey)| p.0 == e)) }
pub open spec fn put<V>(f: spec_fn(Component) -> V, c: Component, v: V) -> spec_fn(Component) -> V { |x: Component| if x == c { v } else { f(x) } }
pub open spec fn add_edge(s: Set<Edge>, e: Edge) -> Set<Edge> { if e.source == e.target { s } else { s.insert(e) } }

/// the effect of one change on a plain model; names that several nodes have refer to one of them
pub open spec fn step(w: World, ev: UpdateEvent, n: World) -> bool {
    match ev {
        UpdateEvent::AddNode { node_name, node_type } =>
            if known(w.labels, node_name) { n == w } else {
                exists|id: NodeID| {
                    &&& forall|k: AnnoKey| !w.labels.dom().contains((id, k))
                    &&& n == World { labels: #[trigger] w.labels.insert((id, name_key()), node_name).insert((id, type_key()), node_type), ..w }
                }
            },
        UpdateEvent::DeleteNode { node_name } =>
            (!known(w.labels, node_name) && n == w) || exists|id: NodeID| #[trigger] named(w.labels, id, node_name) && n == delete_node(w, id),
        UpdateEvent::AddNodeLabel { node_name, anno_ns, anno_name, anno_value } =>
            (!known(w.labels, node_name) && n == w) || exists|id: NodeID| #[trigger] named(w.labels, id, node_name)
                && n == World { labels: w.labels.insert((id, AnnoKey { ns: anno_ns, name: anno_name }), anno_value), ..w },
        UpdateEvent::DeleteNodeLabel { node_name, anno_ns, anno_name } =>
            (!known(w.labels, node_name) && n == w) || exists|id: NodeID| #[trigger] named(w.labels, id, node_name)
                && n == World { labels: w.labels.remove((id, AnnoKey { ns: anno_ns, name: anno_name })), ..w },
        UpdateEvent::AddEdge { source_node, target_node, layer, component_type, component_name } =>
            edge_step(w, source_node, target_node, component_type, n, |e: Edge, ct: CT| add_edge_to(w, Component { ctype: ct, layer, name: component_name }, e)),
        UpdateEvent::DeleteEdge { source_node, target_node, layer, component_type, component_name } =>
            edge_step(w, source_node, target_node, component_type, n, |e: Edge, ct: CT| delete_edge_of(w, Component { ctype: ct, layer, name: component_name }, e)),
        UpdateEvent::AddEdgeLabel { source_node, target_node, layer, component_type, component_name, anno_ns, anno_name, anno_value } =>
            edge_step(w, source_node, target_node, component_type, n, |e: Edge, ct: CT| add_label_to(w, Component { ctype: ct, layer, name: component_name }, e, AnnoKey { ns: anno_ns, name: anno_name }, anno_value)),
        UpdateEvent::DeleteEdgeLabel { source_node, target_node, layer, component_type, component_name, anno_ns, anno_name } =>
            edge_step(w, source_node, target_node, component_type, n, |e: Edge, ct: CT| delete_label_of(w, Component { ctype: ct, layer, name: component_name }, e, AnnoKey { ns: anno_ns, name: anno_name })),
    }
}
/// a change of an edge has no effect when a node or the component type does not exist
pub open spec fn edge_step(w: World, source: String, target: String, ctype: String, n: World, f: spec_fn(Edge, CT) -> World) -> bool {
    if !known(w.labels, source) || !known(w.labels, target) || ctype_of(ctype) is None { n == w } else {
        exists|s: NodeID, t: NodeID| #![trigger named(w.labels, s, source), named(w.labels, t, target)] named(w.labels, s, source) && named(w.labels, t, target) && n == f(Edge { source: s, target: t }, ctype_of(ctype)->0)
    }
}
/// the node, its labels and all edges from and to it in every component disappear
pub open spec fn delete_node(w: World, id: NodeID) -> World {
    World { labels: without_node(w.labels, id), edges: |c: Component| edges_without((w.edges)(c), id), elabels: |c: Component| elabels_without((w.elabels)(c), id) }
}
pub open spec fn add_edge_to(w: World, c: Component, e: Edge) -> World { World { edges: put(w.edges, c, add_edge((w.edges)(c), e)), ..w } }
pub open spec fn delete_edge_of(w: World, c: Component, e: Edge) -> World {
    World { edges: put(w.edges, c, (w.edges)(c).remove(e)), elabels: put(w.elabels, c, elabels_without_edge((w.elabels)(c), e)), ..w }
}
pub open spec fn add_label_to(w: World, c: Component, e: Edge, k: AnnoKey, v: String) -> World {
    if (w.edges)(c).contains(e) { World { elabels: put(w.elabels, c, (w.elabels)(c).insert((e, k), v)), ..w } } else { w }
}
pub open spec fn delete_label_of(w: World, c: Component, e: Edge, k: AnnoKey) -> World {
    if (w.edges)(c).contains(e) { World { elabels: put(w.elabels, c, (w.elabels)(c).remove((e, k))), ..w } } else { w }
}
/// a list of states, each of which results from the one before and the next change
pub open spec fn trace(w: World, evs: Seq<(u64, UpdateEvent)>, ws: Seq<World>, n: World) -> bool {
    &&& ws.len() == evs.len() + 1 && ws[0] == w && ws.last() == n
    &&& forall|i: int| #![trigger evs[i]] 0 <= i < evs.len() ==> step(ws[i], evs[i].1, ws[i + 1])
}
/// all changes one after another
pub open spec fn steps(w: World, evs: Seq<(u64, UpdateEvent)>, n: World) -> bool { exists|ws: Seq<World>| #[trigger] trace(w, evs, ws, n) }
/// applying a list of changes in two parts gives a corpus which applying the whole list can give
pub proof fn lemma_split(w: World, a: Seq<(u64, UpdateEvent)>, m: World, b: Seq<(u64, UpdateEvent)>, n: World)
    requires steps(w, a, m), steps(m, b, n),
    ensures steps(w, a + b, n),
{
    let x = choose|x: Seq<World>| #[trigger] trace(w, a, x, m);
    let y = choose|y: Seq<World>| #[trigger] trace(m, b, y, n);
    let z = x.drop_last() + y;
    assert forall|i: int| #![trigger (a + b)[i]] 0 <= i < (a + b).len() implies step(z[i], (a + b)[i].1, z[i + 1]) by {
        if i < a.len() { assert((a + b)[i] == a[i]); assert(z[i] == x[i]); assert(z[i + 1] == x[i + 1]); } else { assert((a + b)[i] == b[i - a.len()]); assert(z[i] == y[i - a.len()]); assert(z[i + 1] == y[i + 1 - a.len()]); }
    }
    assert(z[0] == w);
    assert(trace(w, a + b, z, n));
}
pub proof fn lemma_put_same<V>(f: spec_fn(Component) -> V, c: Component)
    ensures put(f, c, f(c)) == f,
{ assert(put(f, c, f(c)) =~= f); }
/// removing a node from all components, one after another
pub open spec fn node_removed_in(w: World, n: World, id: NodeID, done: Seq<Component>) -> bool {
    &&& n.labels == without_node(w.labels, id)
    &&& forall|c: Component| #![trigger (n.edges)(c)] (n.edges)(c) == if done.contains(c) { edges_without((w.edges)(c), id) } else { (w.edges)(c) }
    &&& forall|c: Component| #![trigger (n.elabels)(c)] (n.elabels)(c) == if done.contains(c) { elabels_without((w.elabels)(c), id) } else { (w.elabels)(c) }
}
pub proof fn lemma_removed_next(w: World, n: World, m: World, id: NodeID, all: Seq<Component>, k: int)
    requires
        node_removed_in(w, n, id, all.take(k)), 0 <= k < all.len(), all.no_duplicates(),
        m.labels == n.labels,
        m.edges == put(n.edges, all[k], edges_without((n.edges)(all[k]), id)),
        m.elabels == put(n.elabels, all[k], elabels_without((n.elabels)(all[k]), id)),
    ensures node_removed_in(w, m, id, all.take(k + 1)),
{
    assert forall|c: Component| all.take(k + 1).contains(c) <==> (all.take(k).contains(c) || c == all[k]) by {
        if all.take(k).contains(c) { let i = choose|i: int| 0 <= i < k && #[trigger] all.take(k)[i] == c; assert(all.take(k + 1)[i] == c); }
        assert(all.take(k + 1)[k] == all[k]);
        if all.take(k + 1).contains(c) && c != all[k] { let i = choose|i: int| 0 <= i < k + 1 && #[trigger] all.take(k + 1)[i] == c; assert(all.take(k)[i] == c); }
    }
    assert(!all.take(k).contains(all[k])) by { if all.take(k).contains(all[k]) { let i = choose|i: int| 0 <= i < k && #[trigger] all.take(k)[i] == all[k]; assert(all[i] == all[k]); } }
}
pub proof fn lemma_removed_all(w: World, n: World, id: NodeID, all: Seq<Component>)
    requires
        node_removed_in(w, n, id, all),
        forall|c: Component| #![trigger all.contains(c)] !all.contains(c) ==> (w.edges)(c) == Set::<Edge>::empty() && (w.elabels)(c) == EdgeLabels::empty(),
    ensures n == delete_node(w, id),
{
    let d = delete_node(w, id);
    assert forall|c: Component| #[trigger] (n.edges)(c) == (d.edges)(c) by { assert(edges_without(Set::<Edge>::empty(), id) =~= Set::<Edge>::empty()); }
    assert forall|c: Component| #[trigger] (n.elabels)(c) == (d.elabels)(c) by { assert(elabels_without(EdgeLabels::empty(), id) =~= EdgeLabels::empty()); }
    assert(n.edges =~= d.edges); assert(n.elabels =~= d.elabels);
}
/// the first k components of the list are done and all others of the graph have no edges
pub open spec fn removed_in_first(w: World, n: World, id: NodeID, all: Seq<Component>, k: int) -> bool {
    &&& 0 <= k <= all.len() && all.no_duplicates() && node_removed_in(w, n, id, all.take(k))
    &&& forall|c: Component| #![trigger all.contains(c)] !all.contains(c) ==> (w.edges)(c) == Set::<Edge>::empty() && (w.elabels)(c) == EdgeLabels::empty()
}
pub proof fn lemma_steps_next(w: World, evs: Seq<(u64, UpdateEvent)>, k: int, m: World, n: World)
    requires 0 <= k < evs.len(), steps(w, evs.take(k), m), step(m, evs[k].1, n),
    ensures steps(w, evs.take(k + 1), n),
{
    let x = choose|x: Seq<World>| #[trigger] trace(w, evs.take(k), x, m);
    let z = x.push(n);
    assert forall|i: int| #![trigger evs.take(k + 1)[i]] 0 <= i < evs.take(k + 1).len() implies step(z[i], evs.take(k + 1)[i].1, z[i + 1]) by {
        if i < k { assert(evs.take(k + 1)[i] == evs.take(k)[i]); }
    }
    assert(trace(w, evs.take(k + 1), z, n));
}
pub uninterp spec fn derived(c: Component) -> bool;
/// the model-specific index only changes the components derived from the others
pub open spec fn same_but_derived(a: World, b: World) -> bool {
    a.labels == b.labels && forall|c: Component| #![trigger (a.edges)(c)] #![trigger (a.elabels)(c)] !derived(c) ==> (a.edges)(c) == (b.edges)(c) && (a.elabels)(c) == (b.elabels)(c)
}

/// the changes without their numbers
pub type Hist = Seq<(u64, UpdateEvent)>;
pub open spec fn untag(evs: Seq<(u64, UpdateEvent)>) -> Hist { evs.map_values(|p: (u64, UpdateEvent)| (0u64, p.1)) }
pub proof fn lemma_untag(w: World, evs: Seq<(u64, UpdateEvent)>, n: World)
    requires steps(w, evs, n),
    ensures steps(w, untag(evs), n),
{
    let x = choose|x: Seq<World>| #[trigger] trace(w, evs, x, n);
    assert forall|i: int| #![trigger untag(evs)[i]] 0 <= i < untag(evs).len() implies step(x[i], untag(evs)[i].1, x[i + 1]) by { assert(evs[i].1 == untag(evs)[i].1); }
    assert(trace(w, untag(evs), x, n));
}
/// the graph `n` is what the changes can make of `w`, with up-to-date or out-of-date derived components
pub open spec fn applied(w: World, h: Hist, n: World) -> bool { exists|m: World| #[trigger] steps(w, h, m) && same_but_derived(m, n) }
/// derived components do not influence the effect of a change on the others
pub proof fn lemma_sim_step(m: World, b: World, ev: UpdateEvent, b2: World) -> (m2: World)
    requires same_but_derived(m, b), step(b, ev, b2),
    ensures step(m, ev, m2), same_but_derived(m2, b2),
{
    match ev {
        UpdateEvent::AddNode { node_name, node_type } => {
            if known(b.labels, node_name) { m } else { World { labels: b2.labels, ..m } }
        }
        UpdateEvent::DeleteNode { node_name } => {
            if !known(b.labels, node_name) { m } else {
                let id = choose|id: NodeID| #[trigger] named(b.labels, id, node_name) && b2 == delete_node(b, id);
                delete_node(m, id)
            }
        }
        UpdateEvent::AddNodeLabel { .. } => { World { labels: b2.labels, ..m } }
        UpdateEvent::DeleteNodeLabel { .. } => { World { labels: b2.labels, ..m } }
        UpdateEvent::AddEdge { source_node, target_node, layer, component_type, component_name } => {
            if !known(b.labels, source_node) || !known(b.labels, target_node) || ctype_of(component_type) is None { m } else {
                let c = Component { ctype: ctype_of(component_type)->0, layer, name: component_name };
                let (s, t) = choose|s: NodeID, t: NodeID| #![trigger named(b.labels, s, source_node), named(b.labels, t, target_node)] named(b.labels, s, source_node) && named(b.labels, t, target_node) && b2 == add_edge_to(b, c, Edge { source: s, target: t });
                add_edge_to(m, c, Edge { source: s, target: t })
            }
        }
        UpdateEvent::DeleteEdge { source_node, target_node, layer, component_type, component_name } => {
            if !known(b.labels, source_node) || !known(b.labels, target_node) || ctype_of(component_type) is None { m } else {
                let c = Component { ctype: ctype_of(component_type)->0, layer, name: component_name };
                let (s, t) = choose|s: NodeID, t: NodeID| #![trigger named(b.labels, s, source_node), named(b.labels, t, target_node)] named(b.labels, s, source_node) && named(b.labels, t, target_node) && b2 == delete_edge_of(b, c, Edge { source: s, target: t });
                delete_edge_of(m, c, Edge { source: s, target: t })
            }
        }
        UpdateEvent::AddEdgeLabel { source_node, target_node, layer, component_type, component_name, anno_ns, anno_name, anno_value } => {
            if !known(b.labels, source_node) || !known(b.labels, target_node) || ctype_of(component_type) is None { m } else {
                let c = Component { ctype: ctype_of(component_type)->0, layer, name: component_name };
                let k = AnnoKey { ns: anno_ns, name: anno_name };
                let (s, t) = choose|s: NodeID, t: NodeID| #![trigger named(b.labels, s, source_node), named(b.labels, t, target_node)] named(b.labels, s, source_node) && named(b.labels, t, target_node) && b2 == add_label_to(b, c, Edge { source: s, target: t }, k, anno_value);
                add_label_to(m, c, Edge { source: s, target: t }, k, anno_value)
            }
        }
        UpdateEvent::DeleteEdgeLabel { source_node, target_node, layer, component_type, component_name, anno_ns, anno_name } => {
            if !known(b.labels, source_node) || !known(b.labels, target_node) || ctype_of(component_type) is None { m } else {
                let c = Component { ctype: ctype_of(component_type)->0, layer, name: component_name };
                let k = AnnoKey { ns: anno_ns, name: anno_name };
                let (s, t) = choose|s: NodeID, t: NodeID| #![trigger named(b.labels, s, source_node), named(b.labels, t, target_node)] named(b.labels, s, source_node) && named(b.labels, t, target_node) && b2 == delete_label_of(b, c, Edge { source: s, target: t }, k);
                delete_label_of(m, c, Edge { source: s, target: t }, k)
            }
        }
    }
}
pub proof fn lemma_sim(m: World, b: World, h: Hist, b2: World) -> (m2: World)
    requires same_but_derived(m, b), steps(b, h, b2),
    ensures steps(m, h, m2), same_but_derived(m2, b2),
    decreases h.len(),
{
    let y = choose|y: Seq<World>| #[trigger] trace(b, h, y, b2);
    if h.len() == 0 {
        assert(b2 == b);
        assert(trace(m, h, seq![m], m));
        m
    } else {
        let k = h.len() - 1;
        assert forall|i: int| #![trigger h.take(k)[i]] 0 <= i < k implies step(y.take(k + 1)[i], h.take(k)[i].1, y.take(k + 1)[i + 1]) by { assert(h[i] == h.take(k)[i]); }
        assert(trace(b, h.take(k), y.take(k + 1), y[k]));
        let p = lemma_sim(m, b, h.take(k), y[k]);
        assert(step(y[k], h[k].1, y[k + 1]));
        let q = lemma_sim_step(p, y[k], h[k].1, b2);
        lemma_steps_next(m, h, k, p, q);
        assert(h.take(k + 1) =~= h);
        q
    }
}
/// changes applied to a graph which was stored in between
pub proof fn lemma_applied_twice(w: World, a: Hist, b: World, h: Hist, n: World)
    requires applied(w, a, b), applied(b, h, n),
    ensures applied(w, a + h, n),
{
    let m = choose|m: World| #[trigger] steps(w, a, m) && same_but_derived(m, b);
    let b2 = choose|b2: World| #[trigger] steps(b, h, b2) && same_but_derived(b2, n);
    let m2 = lemma_sim(m, b, h, b2);
    lemma_split(w, a, m, h, m2);
}
