//! Random update events and a plain model of what they do to a corpus (P10, P11).
use crate::*;
use graphannis::AnnotationGraph;
use graphannis::model::AnnotationComponentType;
use graphannis::update::{GraphUpdate, UpdateEvent};
use graphannis_core::annostorage::ValueSearch;
use graphannis_core::types::Component;
use std::collections::{BTreeMap, BTreeSet};
use std::str::FromStr;

pub type Comp = (String, String, String);
pub type Labels = BTreeMap<(String, String), String>;
#[derive(Clone, Debug, Default, PartialEq)]
pub struct World {
    next: u64,
    /// id -> labels, the name is the label annis:node_name
    pub nodes: BTreeMap<u64, Labels>,
    pub edges: BTreeMap<Comp, BTreeMap<(u64, u64), Labels>>,
}
/// what can be observed: nodes by name, edges between names
#[derive(Clone, Debug, Default, PartialEq)]
pub struct View {
    pub nodes: BTreeMap<String, Vec<Labels>>,
    pub edges: BTreeMap<Comp, BTreeMap<(String, String), Labels>>,
}
fn key(a: &str, b: &str) -> (String, String) {
    (a.to_string(), b.to_string())
}
pub fn comp(t: &str, l: &str, n: &str) -> Comp {
    (t.to_string(), l.to_string(), n.to_string())
}
pub fn derived(c: &Comp) -> bool {
    c.1 == "annis" && ((c.2.is_empty() && (c.0 == "LeftToken" || c.0 == "RightToken")) || (c.0 == "Coverage" && c.2 == "inherited-coverage"))
}
impl World {
    pub fn id(&self, name: &str) -> Option<u64> {
        self.nodes.iter().find(|(_, l)| l.get(&key("annis", "node_name")).is_some_and(|n| n == name)).map(|x| *x.0)
    }
    pub fn name(&self, id: u64) -> String {
        let l = &self.nodes[&id];
        l.get(&key("annis", "node_name")).cloned().unwrap_or_else(|| format!("?{l:?}"))
    }
    pub fn apply(&mut self, e: &UpdateEvent) {
        use UpdateEvent::*;
        let known = |t: &str| AnnotationComponentType::from_str(t).is_ok();
        match e {
            AddNode { node_name, node_type } => {
                if self.id(node_name).is_none() {
                    let l = [(key("annis", "node_name"), node_name.clone()), (key("annis", "node_type"), node_type.clone())].into_iter().collect();
                    self.nodes.insert(self.next, l);
                    self.next += 1;
                }
            }
            DeleteNode { node_name } => {
                if let Some(n) = self.id(node_name) {
                    self.nodes.remove(&n);
                    for m in self.edges.values_mut() {
                        m.retain(|e, _| e.0 != n && e.1 != n);
                    }
                }
            }
            AddNodeLabel { node_name, anno_ns, anno_name, anno_value } => {
                if let Some(n) = self.id(node_name) {
                    self.nodes.get_mut(&n).unwrap().insert(key(anno_ns, anno_name), anno_value.clone());
                }
            }
            DeleteNodeLabel { node_name, anno_ns, anno_name } => {
                if let Some(n) = self.id(node_name) {
                    self.nodes.get_mut(&n).unwrap().remove(&key(anno_ns, anno_name));
                }
            }
            AddEdge { source_node, target_node, layer, component_type, component_name } => {
                if let (Some(s), Some(t), true) = (self.id(source_node), self.id(target_node), known(component_type)) {
                    if s != t {
                        self.edges.entry(comp(component_type, layer, component_name)).or_default().entry((s, t)).or_default();
                    }
                }
            }
            DeleteEdge { source_node, target_node, layer, component_type, component_name } => {
                if let (Some(s), Some(t)) = (self.id(source_node), self.id(target_node)) {
                    if let Some(m) = self.edges.get_mut(&comp(component_type, layer, component_name)) {
                        m.remove(&(s, t));
                    }
                }
            }
            AddEdgeLabel { source_node, target_node, layer, component_type, component_name, anno_ns, anno_name, anno_value } => {
                if let (Some(s), Some(t)) = (self.id(source_node), self.id(target_node)) {
                    if let Some(l) = self.edges.get_mut(&comp(component_type, layer, component_name)).and_then(|m| m.get_mut(&(s, t))) {
                        l.insert(key(anno_ns, anno_name), anno_value.clone());
                    }
                }
            }
            DeleteEdgeLabel { source_node, target_node, layer, component_type, component_name, anno_ns, anno_name } => {
                if let (Some(s), Some(t)) = (self.id(source_node), self.id(target_node)) {
                    if let Some(l) = self.edges.get_mut(&comp(component_type, layer, component_name)).and_then(|m| m.get_mut(&(s, t))) {
                        l.remove(&key(anno_ns, anno_name));
                    }
                }
            }
        }
    }
    pub fn view(&self) -> View {
        let mut v = View::default();
        for (id, l) in &self.nodes {
            v.nodes.entry(self.name(*id)).or_default().push(l.clone());
        }
        for (c, m) in &self.edges {
            for ((s, t), l) in m {
                v.edges.entry(c.clone()).or_default().insert((self.name(*s), self.name(*t)), l.clone());
            }
        }
        v
    }
    fn coverage(&self, dominance: bool) -> BTreeSet<(u64, u64)> {
        let f = |c: &Comp| !derived(c) && (c.0 == "Coverage" || (dominance && c.0 == "Dominance"));
        self.edges.iter().filter(|(c, _)| f(c)).flat_map(|(_, m)| m.keys().copied()).collect()
    }
    /// a token: has the label and covers nothing directly
    pub fn is_token(&self, n: u64) -> bool {
        self.nodes.get(&n).is_some_and(|l| l.contains_key(&key("annis", "tok"))) && !self.coverage(false).iter().any(|e| e.0 == n)
    }
    fn reach(edges: &BTreeSet<(u64, u64)>, n: u64) -> BTreeSet<u64> {
        let mut seen = BTreeSet::new();
        let mut todo: Vec<u64> = vec![n];
        while let Some(x) = todo.pop() {
            for e in edges.range((x, 0)..=(x, u64::MAX)) {
                if seen.insert(e.1) {
                    todo.push(e.1);
                }
            }
        }
        seen
    }
    /// the tokens each node covers, directly or through other nodes
    pub fn covered(&self, n: u64) -> BTreeSet<u64> {
        Self::reach(&self.coverage(true), n).into_iter().filter(|x| self.is_token(*x)).collect()
    }
    /// expected inherited coverage edges
    pub fn inherited(&self) -> BTreeSet<(String, String)> {
        let direct = self.coverage(false);
        let mut r = BTreeSet::new();
        for n in self.nodes.keys() {
            for t in self.covered(*n) {
                if t != *n && !direct.contains(&(*n, t)) {
                    r.insert((self.name(*n), self.name(t)));
                }
            }
        }
        r
    }
    /// expected left and right token; None when the covered tokens have no defined order
    pub fn aligned(&self, n: u64) -> Option<Option<(String, String)>> {
        let c: Vec<u64> = self.covered(n).into_iter().collect();
        if c.is_empty() || c.contains(&n) {
            return Some(None);
        }
        let order: BTreeSet<(u64, u64)> = self.edges.get(&comp("Ordering", "annis", "")).map(|m| m.keys().copied().collect()).unwrap_or_default();
        let after: BTreeMap<u64, BTreeSet<u64>> = c.iter().map(|x| (*x, Self::reach(&order, *x))).collect();
        for a in &c {
            for b in &c {
                if a != b && after[a].contains(b) == after[b].contains(a) {
                    return None;
                }
            }
        }
        let left = c.iter().find(|a| c.iter().all(|b| a == &b || after[a].contains(b)))?;
        let right = c.iter().find(|a| c.iter().all(|b| a == &b || after[b].contains(a)))?;
        Some(Some((self.name(*left), self.name(*right))))
    }
}

fn to_labels(v: Vec<graphannis_core::types::Annotation>) -> Labels {
    v.into_iter().map(|a| ((a.key.ns.to_string(), a.key.name.to_string()), a.val.to_string())).collect()
}
/// everything the graph contains
pub fn read(g: &mut AnnotationGraph) -> Result<View, String> {
    ok(g.ensure_loaded_all(), "loading all components")?;
    let mut v = View::default();
    let annos = g.get_node_annos();
    let mut names: BTreeMap<u64, String> = BTreeMap::new();
    let mut ids = BTreeSet::new();
    for m in annos.exact_anno_search(Some("annis"), "node_type", ValueSearch::Any) {
        ids.insert(ok(m, "search for nodes")?.node);
    }
    for m in annos.exact_anno_search(Some("annis"), "node_name", ValueSearch::Any) {
        ids.insert(ok(m, "search for nodes")?.node);
    }
    for id in ids {
        let l = to_labels(ok(annos.get_annotations_for_item(&id), "annotations of a node")?);
        let n = match l.get(&key("annis", "node_name")) {
            Some(n) => {
                eq(ok(annos.get_node_id_from_name(n), "node by name")?, Some(id), &format!("node with the name {n:?}"))?;
                ensure!(ok(annos.has_node_name(n), "has_node_name")?, "has_node_name({n:?})");
                n.clone()
            }
            None => format!("?{l:?}"),
        };
        names.insert(id, n.clone());
        v.nodes.entry(n).or_default().push(l);
    }
    for c in g.get_all_components(None, None) {
        let gs = g.get_graphstorage(&c).ok_or("component not loaded")?;
        let cc = comp(&c.get_type().to_string(), &c.layer, &c.name);
        let name = |n: u64| names.get(&n).cloned().unwrap_or_else(|| format!("<deleted node {n}>"));
        for s in gs.source_nodes() {
            let s = ok(s, "source node")?;
            for t in gs.get_outgoing_edges(s) {
                let t = ok(t, "edge")?;
                let e = graphannis_core::types::Edge { source: s, target: t };
                let l = to_labels(ok(gs.get_anno_storage().get_annotations_for_item(&e), "annotations of an edge")?);
                v.edges.entry(cc.clone()).or_default().insert((name(s), name(t)), l);
                let back: Result<Vec<u64>, _> = gs.get_ingoing_edges(t).collect();
                ensure!(ok(back, "ingoing edges")?.contains(&s), "edge {} -> {} of {cc:?} is missing in the ingoing edges", name(s), name(t));
            }
        }
    }
    Ok(v)
}
/// the graph contains what the model contains, the derived components included
pub fn compare(what: &str, g: &mut AnnotationGraph, w: &World) -> Result<(), String> {
    let got = read(g)?;
    let want = w.view();
    for (n, l) in &want.nodes {
        eq(got.nodes.get(n), Some(l), &format!("{what}: node {n:?}"))?;
    }
    for n in got.nodes.keys() {
        ensure!(want.nodes.contains_key(n), "{what}: unexpected node {n:?}");
    }
    let none = BTreeMap::new();
    for c in got.edges.keys().chain(want.edges.keys()) {
        if !derived(c) {
            eq(got.edges.get(c).unwrap_or(&none), want.edges.get(c).unwrap_or(&none), &format!("{what}: edges of {c:?}"))?;
        }
    }
    let of = |c: Comp| -> BTreeSet<(String, String)> { got.edges.get(&c).map(|m| m.keys().cloned().collect()).unwrap_or_default() };
    eq(of(comp("Coverage", "annis", "inherited-coverage")), w.inherited(), &format!("{what}: inherited coverage"))?;
    let (left, right) = (of(comp("LeftToken", "annis", "")), of(comp("RightToken", "annis", "")));
    for n in w.nodes.keys() {
        let name = w.name(*n);
        if let Some(x) = w.aligned(*n) {
            let l: Vec<&String> = left.iter().filter(|e| e.0 == name).map(|e| &e.1).collect();
            let r: Vec<&String> = right.iter().filter(|e| e.0 == name).map(|e| &e.1).collect();
            eq(l, x.iter().map(|p| &p.0).collect(), &format!("{what}: left token of {name:?}"))?;
            eq(r, x.iter().map(|p| &p.1).collect(), &format!("{what}: right token of {name:?}"))?;
        }
    }
    for e in left.iter().chain(right.iter()) {
        ensure!(want.nodes.contains_key(&e.0) && want.nodes.contains_key(&e.1), "{what}: token alignment edge {e:?} of a missing node");
    }
    Ok(())
}

pub fn update(events: &[UpdateEvent]) -> Result<GraphUpdate, String> {
    let mut u = GraphUpdate::new();
    for e in events {
        ok(u.add_event(e.clone()), "add_event")?;
    }
    Ok(u)
}

/// node names by kind: tokens, segmentation nodes, spans and structures, others
pub struct Names {
    pub toks: Vec<String>,
    pub segs: Vec<String>,
    pub structs: Vec<String>,
    pub others: Vec<String>,
}
pub fn names(rng: &mut Rng) -> Names {
    let k = rng.range(2, 6);
    Names {
        toks: (0..k).map(|i| format!("c/d#t{i}")).collect(),
        segs: (0..rng.below(3)).map(|i| format!("c/d#seg{i}")).collect(),
        structs: (0..rng.range(1, 5)).map(|i| format!("c/d#s{i}")).collect(),
        others: vec!["c".into(), "c/d".into(), "c/d%20#ä ö".into()],
    }
}
fn comps() -> Vec<Comp> {
    vec![
        comp("Coverage", "annis", ""), comp("Coverage", "test", ""), comp("Coverage", "annis", "x"),
        comp("Dominance", "test", ""), comp("Dominance", "test", "edge"), comp("Pointing", "test", "dep"), comp("Pointing", "", "dep"),
        comp("Pointing", "test", ""), comp("PartOf", "annis", ""), comp("Ordering", "annis", "seg"), comp("Foo", "test", ""),
    ]
}
/// One random event. Edges keep to the kinds of nodes an annotation graph has: tokens and
/// segmentation nodes do not dominate, tokens do not cover.
pub fn event(rng: &mut Rng, n: &Names, fresh: &mut usize) -> UpdateEvent {
    let any = |rng: &mut Rng| -> String {
        match rng.below(9) {
            0..=3 => rng.pick(&n.toks).clone(),
            4 if !n.segs.is_empty() => rng.pick(&n.segs).clone(),
            5..=7 => rng.pick(&n.structs).clone(),
            8 if rng.chance(1, 3) => "missing".to_string(),
            _ => rng.pick(&n.others).clone(),
        }
    };
    let label = |rng: &mut Rng| -> (String, String, String) {
        let ns = rng.pick(&["test", "", "annis"][..]).to_string();
        let name = rng.pick(&["pos", "lemma", "x"][..]).to_string();
        let v = rng.pick(&["", "a", "b", "ä", "NN"][..]).to_string();
        (ns, name, v)
    };
    // (source, target, component)
    let edge = |rng: &mut Rng| -> (String, String, Comp) {
        match rng.below(10) {
            0..=2 => {
                let i = rng.below(n.toks.len());
                let j = if rng.chance(1, 8) { rng.below(n.toks.len()) } else { (i + 1) % n.toks.len() };
                let (i, j) = if j < i && !rng.chance(1, 10) { (j, i) } else { (i, j) };
                (n.toks[i].clone(), n.toks[j].clone(), comp("Ordering", "annis", ""))
            }
            3 | 4 => {
                let s = if rng.chance(1, 3) && !n.segs.is_empty() { rng.pick(&n.segs).clone() } else { rng.pick(&n.structs).clone() };
                let c = rng.pick(&comps()[..3]).clone();
                (s, rng.pick(&n.toks).clone(), c)
            }
            5 | 6 => {
                let s = rng.pick(&n.structs).clone();
                let t = match rng.below(3) { 0 => rng.pick(&n.toks).clone(), 1 if !n.segs.is_empty() => rng.pick(&n.segs).clone(), _ => rng.pick(&n.structs).clone() };
                let c = rng.pick(&comps()[..5]).clone();
                (s, t, c)
            }
            _ => {
                let c = rng.pick(&comps()[5..]).clone();
                (any(rng), any(rng), c)
            }
        }
    };
    match rng.below(100) {
        0..=21 => {
            let x = any(rng);
            UpdateEvent::AddNode { node_name: x, node_type: rng.pick(&["node", "corpus"][..]).to_string() }
        }
        22..=27 => UpdateEvent::DeleteNode { node_name: any(rng) },
        28..=39 => {
            let t = if rng.chance(1, 3) && !n.segs.is_empty() { rng.pick(&n.segs).clone() } else { rng.pick(&n.toks).clone() };
            UpdateEvent::AddNodeLabel { node_name: t, anno_ns: "annis".into(), anno_name: "tok".into(), anno_value: "w".into() }
        }
        40..=47 => {
            let (ns, name, v) = label(rng);
            UpdateEvent::AddNodeLabel { node_name: any(rng), anno_ns: ns, anno_name: name, anno_value: v }
        }
        48..=50 => {
            let (ns, name, _) = label(rng);
            UpdateEvent::DeleteNodeLabel { node_name: any(rng), anno_ns: ns, anno_name: name }
        }
        51 => UpdateEvent::DeleteNodeLabel { node_name: rng.pick(&n.toks).clone(), anno_ns: "annis".into(), anno_name: "tok".into() },
        52 => {
            // rename a node to a new name
            *fresh += 1;
            UpdateEvent::AddNodeLabel { node_name: any(rng), anno_ns: "annis".into(), anno_name: "node_name".into(), anno_value: format!("c/d#renamed{fresh}") }
        }
        53..=82 => {
            let (s, t, c) = edge(rng);
            UpdateEvent::AddEdge { source_node: s, target_node: t, layer: c.1, component_type: c.0, component_name: c.2 }
        }
        83..=88 => {
            let (s, t, c) = edge(rng);
            UpdateEvent::DeleteEdge { source_node: s, target_node: t, layer: c.1, component_type: c.0, component_name: c.2 }
        }
        89..=96 => {
            let (s, t, c) = edge(rng);
            let (ns, name, v) = label(rng);
            UpdateEvent::AddEdgeLabel { source_node: s, target_node: t, layer: c.1, component_type: c.0, component_name: c.2, anno_ns: ns, anno_name: name, anno_value: v }
        }
        _ => {
            let (s, t, c) = edge(rng);
            let (ns, name, _) = label(rng);
            UpdateEvent::DeleteEdgeLabel { source_node: s, target_node: t, layer: c.1, component_type: c.0, component_name: c.2, anno_ns: ns, anno_name: name }
        }
    }
}
/// a list of events, most of them on existing nodes
pub fn events(rng: &mut Rng, n: &Names, len: usize) -> Vec<UpdateEvent> {
    let mut r = vec![];
    if rng.chance(4, 5) {
        let mut all: Vec<&String> = n.toks.iter().chain(&n.segs).chain(&n.structs).collect();
        rng.shuffle(&mut all);
        for x in all {
            if rng.chance(9, 10) {
                r.push(UpdateEvent::AddNode { node_name: x.clone(), node_type: "node".into() });
                if !n.structs.contains(x) && rng.chance(9, 10) {
                    r.push(UpdateEvent::AddNodeLabel { node_name: x.clone(), anno_ns: "annis".into(), anno_name: "tok".into(), anno_value: "w".into() });
                }
            }
        }
        if rng.chance(1, 2) {
            for i in 1..n.toks.len() {
                r.push(corpus::add_edge(&n.toks[i - 1], &n.toks[i], "annis", "Ordering", ""));
            }
        }
    }
    let mut fresh = 0;
    for _ in 0..len {
        r.push(event(rng, n, &mut fresh));
    }
    r
}
pub fn component(c: &Comp) -> Component<AnnotationComponentType> {
    Component::new(AnnotationComponentType::from_str(&c.0).unwrap(), c.1.as_str().into(), c.2.as_str().into())
}
