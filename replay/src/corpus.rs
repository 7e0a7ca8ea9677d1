//! Random annotated corpora as update events plus an independent model of them.
use crate::Rng;
use graphannis::CorpusStorage;
use graphannis::update::{GraphUpdate, UpdateEvent};
use std::collections::BTreeMap;

pub const NS: &str = "annis";

#[derive(Clone, Debug, Default)]
pub struct Node {
    pub name: String,
    /// document number
    pub doc: usize,
    /// covered tokens (positions in the document), empty for corpora
    pub cov: Vec<usize>,
    pub is_tok: bool,
    /// (ns, name) -> value
    pub annos: BTreeMap<(String, String), String>,
}
#[derive(Clone, Debug, Default)]
pub struct Corpus {
    pub name: String,
    pub docs: Vec<String>,
    pub nodes: Vec<Node>,
    /// (from, to, annotation)
    pub dom: Vec<(usize, usize, Option<(String, String)>)>,
    pub point: Vec<(usize, usize, Option<(String, String)>)>,
    pub events: Vec<UpdateEvent>,
}

impl Corpus {
    pub fn toks(&self, doc: usize) -> Vec<usize> {
        (0..self.nodes.len()).filter(|i| self.nodes[*i].is_tok && self.nodes[*i].doc == doc).collect()
    }
    pub fn left(&self, n: usize) -> Option<usize> {
        self.nodes[n].cov.iter().min().copied()
    }
    pub fn right(&self, n: usize) -> Option<usize> {
        self.nodes[n].cov.iter().max().copied()
    }
    pub fn anno(&self, n: usize, name: &str) -> Option<&str> {
        self.nodes[n].annos.iter().find(|(k, _)| k.1 == name).map(|x| x.1.as_str())
    }
    pub fn update(&self) -> GraphUpdate {
        let mut u = GraphUpdate::new();
        for e in &self.events {
            u.add_event(e.clone()).unwrap();
        }
        u
    }
}

pub fn add_node(name: &str, ty: &str) -> UpdateEvent {
    UpdateEvent::AddNode { node_name: name.into(), node_type: ty.into() }
}
pub fn add_label(node: &str, ns: &str, name: &str, value: &str) -> UpdateEvent {
    UpdateEvent::AddNodeLabel { node_name: node.into(), anno_ns: ns.into(), anno_name: name.into(), anno_value: value.into() }
}
pub fn add_edge(s: &str, t: &str, layer: &str, ty: &str, name: &str) -> UpdateEvent {
    UpdateEvent::AddEdge { source_node: s.into(), target_node: t.into(), layer: layer.into(), component_type: ty.into(), component_name: name.into() }
}
pub fn add_edge_label(s: &str, t: &str, layer: &str, ty: &str, name: &str, an: &str, v: &str) -> UpdateEvent {
    UpdateEvent::AddEdgeLabel {
        source_node: s.into(),
        target_node: t.into(),
        layer: layer.into(),
        component_type: ty.into(),
        component_name: name.into(),
        anno_ns: "test".into(),
        anno_name: an.into(),
        anno_value: v.into(),
    }
}

pub struct Opts {
    pub docs: usize,
    pub max_tok: usize,
    pub spans: usize,
    pub structs: usize,
    pub pointing: usize,
}
impl Default for Opts {
    fn default() -> Self {
        Opts { docs: 2, max_tok: 8, spans: 3, structs: 3, pointing: 4 }
    }
}

/// One text per document, tokens `#t<k>` in an order unrelated to their names, spans (possibly
/// discontinuous), a dominance forest over them and arbitrary pointing relations.
pub fn random(rng: &mut Rng, root: &str, o: &Opts) -> Corpus {
    let mut c = Corpus { name: root.into(), ..Default::default() };
    let mut ev = vec![add_node(root, "corpus")];
    for d in 0..o.docs {
        let dn = format!("{root}/doc{d}");
        ev.push(add_node(&dn, "corpus"));
        ev.push(add_edge(&dn, root, NS, "PartOf", ""));
        c.docs.push(dn.clone());
        let text = format!("{dn}#text");
        ev.push(add_node(&text, "datasource"));
        ev.push(add_edge(&text, &dn, NS, "PartOf", ""));
        let nt = rng.range(1, o.max_tok);
        let mut ids: Vec<usize> = (0..nt).collect();
        rng.shuffle(&mut ids);
        let mut toks = vec![];
        for (pos, id) in ids.iter().enumerate() {
            let name = format!("{dn}#t{id}");
            ev.push(add_node(&name, "node"));
            let w = *rng.pick(&["a", "b", "abc", "x"]);
            ev.push(add_label(&name, NS, "tok", w));
            let mut annos = BTreeMap::new();
            annos.insert((NS.to_string(), "tok".to_string()), w.to_string());
            if rng.chance(2, 3) {
                let p = *rng.pick(&["A", "B", "C"]);
                ev.push(add_label(&name, "test", "pos", p));
                annos.insert(("test".into(), "pos".into()), p.into());
            }
            ev.push(add_edge(&name, &text, NS, "PartOf", ""));
            toks.push(c.nodes.len());
            c.nodes.push(Node { name, doc: d, cov: vec![pos], is_tok: true, annos });
        }
        for w in toks.windows(2) {
            ev.push(add_edge(&c.nodes[w[0]].name, &c.nodes[w[1]].name, NS, "Ordering", ""));
        }
        let mut spans = vec![];
        for s in 0..rng.range(0, o.spans) {
            let name = format!("{dn}#s{s}");
            ev.push(add_node(&name, "node"));
            let a = rng.below(nt);
            let b = rng.range(a, nt - 1);
            let mut cov: Vec<usize> = (a..=b).filter(|x| *x == a || *x == b || rng.chance(3, 4)).collect();
            cov.sort();
            for k in &cov {
                ev.push(add_edge(&name, &c.nodes[toks[*k]].name, NS, "Coverage", ""));
            }
            let v = *rng.pick(&["A", "B", "x"]);
            ev.push(add_label(&name, "test", "span", v));
            ev.push(add_edge(&name, &text, NS, "PartOf", ""));
            let mut annos = BTreeMap::new();
            annos.insert(("test".to_string(), "span".to_string()), v.to_string());
            spans.push(c.nodes.len());
            c.nodes.push(Node { name, doc: d, cov, is_tok: false, annos });
        }
        // dominance forest: each new structure takes some nodes that have no parent yet
        let mut free: Vec<usize> = toks.clone();
        for s in 0..rng.range(0, o.structs) {
            if free.is_empty() {
                break;
            }
            let name = format!("{dn}#n{s}");
            ev.push(add_node(&name, "node"));
            let v = *rng.pick(&["S", "NP", "A"]);
            ev.push(add_label(&name, "test", "cat", v));
            ev.push(add_edge(&name, &text, NS, "PartOf", ""));
            let mut annos = BTreeMap::new();
            annos.insert(("test".to_string(), "cat".to_string()), v.to_string());
            let idx = c.nodes.len();
            let mut cov = vec![];
            let k = rng.range(1, 3.min(free.len()));
            for _ in 0..k {
                let p = rng.below(free.len());
                let child = free.remove(p);
                let mut an = None;
                ev.push(add_edge(&name, &c.nodes[child].name, "test", "Dominance", "edge"));
                ev.push(add_edge(&name, &c.nodes[child].name, "test", "Dominance", ""));
                if rng.chance(1, 2) {
                    let f = *rng.pick(&["SB", "OA"]);
                    ev.push(add_edge_label(&name, &c.nodes[child].name, "test", "Dominance", "edge", "func", f));
                    ev.push(add_edge_label(&name, &c.nodes[child].name, "test", "Dominance", "", "func", f));
                    an = Some(("func".to_string(), f.to_string()));
                }
                c.dom.push((idx, child, an));
                cov.extend(c.nodes[child].cov.iter().copied());
            }
            cov.sort();
            cov.dedup();
            c.nodes.push(Node { name, doc: d, cov, is_tok: false, annos });
            free.push(idx);
        }
        let all: Vec<usize> = (0..c.nodes.len()).filter(|i| c.nodes[*i].doc == d).collect();
        for _ in 0..rng.range(0, o.pointing) {
            let a = *rng.pick(&all);
            let b = *rng.pick(&all);
            if c.point.iter().any(|p| p.0 == a && p.1 == b) {
                continue;
            }
            ev.push(add_edge(&c.nodes[a].name, &c.nodes[b].name, "test", "Pointing", "dep"));
            let mut an = None;
            if rng.chance(1, 2) {
                let f = *rng.pick(&["subj", "obj"]);
                ev.push(add_edge_label(&c.nodes[a].name, &c.nodes[b].name, "test", "Pointing", "dep", "func", f));
                an = Some(("func".to_string(), f.to_string()));
            }
            c.point.push((a, b, an));
        }
    }
    c.events = ev;
    c
}

pub fn storage(dir: &std::path::Path, parallel: bool) -> Result<CorpusStorage, String> {
    CorpusStorage::with_cache_strategy(dir, graphannis::corpusstorage::CacheStrategy::FixedMaxMemory(500), parallel)
        .map_err(|e| format!("opening a corpus storage: {e}"))
}
