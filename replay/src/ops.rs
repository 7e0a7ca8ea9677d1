//! The meaning of the query operators, written from the documentation over a plain model of the
//! corpus (P12, P13): which pairs of nodes each operator accepts.
use crate::corpus::*;
use crate::upd::World;
use graphannis::AnnotationGraph;
use crate::*;
use graphannis::annis::db::aql::operators::*;
use graphannis::annis::db::exec::nodesearch::NodeSearchSpec;
use graphannis::annis::operator::{BinaryOperatorSpec, EdgeAnnoSearchSpec};
use graphannis::update::UpdateEvent;
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet};
use std::sync::Arc;

pub type Dist = Option<(usize, usize)>;
#[derive(Clone, Debug, PartialEq)]
pub enum EdgeAnno {
    Exact(Option<String>, String, Option<String>),
    NotExact(Option<String>, String, String),
    Regex(Option<String>, String, String),
    NotRegex(Option<String>, String, String),
}
#[derive(Clone, Debug, PartialEq)]
pub enum Op {
    Prec(Option<String>, Dist),
    Near(Option<String>, Dist),
    Overlap,
    OverlapReflexive,
    Incl,
    IdentCov,
    Left,
    Right,
    Dom(String, Dist, Option<EdgeAnno>),
    Point(String, Dist, Option<EdgeAnno>),
    PartOf(Dist),
    Ident,
}
fn range(d: &Dist) -> RangeSpec {
    match d {
        None => RangeSpec::Unbound,
        Some((min_dist, max_dist)) => RangeSpec::Bound { min_dist: *min_dist, max_dist: *max_dist },
    }
}
pub fn within(d: usize, r: &Dist) -> bool {
    match r {
        None => d >= 1,
        Some((a, b)) => d >= *a && d <= *b,
    }
}
impl EdgeAnno {
    fn spec(&self) -> EdgeAnnoSearchSpec {
        use EdgeAnno::*;
        match self.clone() {
            Exact(ns, name, val) => EdgeAnnoSearchSpec::ExactValue { ns, name, val },
            NotExact(ns, name, val) => EdgeAnnoSearchSpec::NotExactValue { ns, name, val },
            Regex(ns, name, val) => EdgeAnnoSearchSpec::RegexValue { ns, name, val },
            NotRegex(ns, name, val) => EdgeAnnoSearchSpec::NotRegexValue { ns, name, val },
        }
    }
    pub fn aql(&self) -> String {
        use EdgeAnno::*;
        let q = |ns: &Option<String>, n: &String| if let Some(ns) = ns { format!("{ns}:{n}") } else { n.clone() };
        match self {
            Exact(ns, n, Some(v)) => format!("[{}=\"{v}\"]", q(ns, n)),
            Exact(ns, n, None) => format!("[{}]", q(ns, n)),
            NotExact(ns, n, v) => format!("[{}!=\"{v}\"]", q(ns, n)),
            Regex(ns, n, v) => format!("[{}=/{v}/]", q(ns, n)),
            NotRegex(ns, n, v) => format!("[{}!=/{v}/]", q(ns, n)),
        }
    }
    fn holds(&self, labels: &crate::upd::Labels) -> bool {
        use EdgeAnno::*;
        let full = |v: &str, s: &str| regex::Regex::new(&format!("^(?:{v})$")).unwrap().is_match(s);
        labels.iter().any(|((ns, n), v)| {
            let key = |ns2: &Option<String>, n2: &String| n == n2 && ns2.as_ref().is_none_or(|x| x == ns);
            match self {
                Exact(a, b, c) => key(a, b) && c.as_ref().is_none_or(|x| x == v),
                NotExact(a, b, c) => key(a, b) && c != v,
                Regex(a, b, c) => key(a, b) && full(c, v),
                NotRegex(a, b, c) => key(a, b) && !full(c, v),
            }
        })
    }
}
impl Op {
    pub fn spec(&self) -> Arc<dyn BinaryOperatorSpec> {
        match self {
            Op::Prec(s, d) => Arc::new(PrecedenceSpec { segmentation: s.clone(), dist: range(d) }),
            Op::Near(s, d) => Arc::new(NearSpec { segmentation: s.clone(), dist: range(d) }),
            Op::Overlap => Arc::new(OverlapSpec { reflexive: false }),
            Op::OverlapReflexive => Arc::new(OverlapSpec { reflexive: true }),
            Op::Incl => Arc::new(InclusionSpec {}),
            Op::IdentCov => Arc::new(IdenticalCoverageSpec {}),
            Op::Left => Arc::new(LeftAlignmentSpec {}),
            Op::Right => Arc::new(RightAlignmentSpec {}),
            Op::Dom(n, d, a) => Arc::new(DominanceSpec { name: n.clone(), dist: range(d), edge_anno: a.as_ref().map(|a| a.spec()) }),
            Op::Point(n, d, a) => Arc::new(PointingSpec { name: n.clone(), dist: range(d), edge_anno: a.as_ref().map(|a| a.spec()) }),
            Op::PartOf(d) => Arc::new(PartOfSubCorpusSpec { dist: range(d) }),
            Op::Ident => Arc::new(IdenticalNodeSpec {}),
        }
    }
    /// AQL text of the operator
    pub fn aql(&self) -> String {
        let r = |d: &Dist| match d {
            None => "*".to_string(),
            Some((1, 1)) => "".to_string(),
            Some((a, b)) if a == b => format!("{a}"),
            Some((a, b)) => format!("{a},{b}"),
        };
        let seg = |o: &str, s: &Option<String>, d: &Dist| match s {
            None => format!("{o}{}", r(d)),
            Some(s) if r(d) == "" => format!("{o}{s}"),
            Some(s) if d.is_none() => format!("{o}{s} *"),
            Some(s) => format!("{o}{s},{}", r(d)),
        };
        let edge = |o: &str, n: &str, d: &Dist, a: &Option<EdgeAnno>| {
            let d = r(d);
            format!("{o}{n}{}{d}{}", if n.is_empty() || d.is_empty() { "" } else { " " }, a.as_ref().map(|a| a.aql()).unwrap_or_default())
        };
        match self {
            Op::Prec(s, d) => seg(".", s, d),
            Op::Near(s, d) => seg("^", s, d),
            Op::Overlap => "_o_".into(),
            Op::OverlapReflexive => "_o_reflexive_".into(),
            Op::Incl => "_i_".into(),
            Op::IdentCov => "_=_".into(),
            Op::Left => "_l_".into(),
            Op::Right => "_r_".into(),
            Op::Dom(n, d, a) => edge(">", n, d, a),
            Op::Point(n, d, a) => edge("->", n, d, a),
            Op::PartOf(d) => format!("@{}", r(d)),
            Op::Ident => "_ident_".into(),
        }
    }
    /// a node is never found as its own partner
    pub fn excludes_itself(&self) -> bool {
        matches!(self, Op::Overlap | Op::Incl | Op::IdentCov | Op::Left | Op::Right | Op::PartOf(_))
    }
}

pub struct Sem {
    pub w: World,
    pub ids: Vec<u64>,
    tok: BTreeSet<u64>,
    cov: BTreeMap<u64, BTreeSet<u64>>,
    lr: BTreeMap<u64, Option<(u64, u64)>>,
    lens: RefCell<BTreeMap<(String, Option<String>, String, u64), BTreeMap<u64, BTreeSet<usize>>>>,
}
impl Sem {
    pub fn new(w: World) -> Sem {
        let ids: Vec<u64> = w.nodes.keys().copied().collect();
        let tok = ids.iter().copied().filter(|n| w.is_token(*n)).collect();
        let mut cov = BTreeMap::new();
        let mut lr = BTreeMap::new();
        for n in &ids {
            if w.is_token(*n) {
                cov.insert(*n, BTreeSet::from([*n]));
                lr.insert(*n, Some((*n, *n)));
            } else {
                cov.insert(*n, w.covered(*n));
                let a = w.aligned(*n).expect("linear text");
                lr.insert(*n, a.map(|(l, r)| (w.id(&l).unwrap(), w.id(&r).unwrap())));
            }
        }
        Sem { w, ids, tok, cov, lr, lens: Default::default() }
    }
    pub fn is_token(&self, n: u64) -> bool {
        self.tok.contains(&n)
    }
    pub fn left(&self, n: u64) -> Option<u64> {
        self.lr[&n].map(|x| x.0)
    }
    pub fn right(&self, n: u64) -> Option<u64> {
        self.lr[&n].map(|x| x.1)
    }
    /// lengths of the paths without repeated nodes in one component
    fn paths(&self, t: &str, layer: &str, name: &str, a: u64, b: u64) -> BTreeSet<usize> {
        let k = (t.to_string(), Some(layer.to_string()), name.to_string(), a);
        if !self.lens.borrow().contains_key(&k) {
            let edges = self.w.edges.get(&(t.to_string(), layer.to_string(), name.to_string())).map(|m| m.keys().copied().collect()).unwrap_or_default();
            let l = gs::lens(&edges, a);
            self.lens.borrow_mut().insert(k.clone(), l);
        }
        self.lens.borrow()[&k].get(&b).cloned().unwrap_or_default()
    }
    fn order(&self, seg: &Option<String>, a: u64, b: u64, d: &Dist) -> bool {
        let p = match seg {
            None => self.paths("Ordering", "annis", "", a, b),
            Some(s) => self.paths("Ordering", "default_ns", s, a, b),
        };
        p.into_iter().any(|x| within(x, d))
    }
    fn edge(&self, t: &str, name: &str, d: &Dist, anno: &Option<EdgeAnno>, a: u64, b: u64) -> bool {
        let none = Default::default();
        self.w.edges.iter().filter(|(c, _)| c.0 == t && c.2 == name).any(|(c, m)| {
            self.paths(t, &c.1, name, a, b).into_iter().any(|x| within(x, d)) && anno.as_ref().is_none_or(|an| an.holds(m.get(&(a, b)).unwrap_or(&none)))
        })
    }
    pub fn before_eq(&self, a: u64, b: u64) -> bool {
        a == b || self.order(&None, a, b, &None)
    }
    fn prec(&self, seg: &Option<String>, d: &Dist, a: u64, b: u64) -> bool {
        match seg {
            Some(_) => self.order(seg, a, b, d),
            None => match (self.right(a), self.left(b)) {
                (Some(x), Some(y)) => self.order(seg, x, y, d),
                _ => false,
            },
        }
    }
    /// does the operator accept the pair of nodes?
    pub fn accepts(&self, op: &Op, a: u64, b: u64) -> bool {
        match op {
            Op::Prec(s, d) => self.prec(s, d, a, b),
            Op::Near(s, d) => self.prec(s, d, a, b) || self.prec(s, d, b, a),
            Op::Overlap => !self.cov[&a].is_disjoint(&self.cov[&b]),
            Op::OverlapReflexive => a == b || !self.cov[&a].is_disjoint(&self.cov[&b]),
            Op::Incl => match (self.lr[&a], self.lr[&b]) {
                (Some((l1, r1)), Some((l2, r2))) => self.before_eq(l1, l2) && self.before_eq(r2, r1) && self.before_eq(l1, r1),
                _ => false,
            },
            Op::IdentCov => self.lr[&a].is_some() && self.lr[&a] == self.lr[&b],
            Op::Left => self.left(a).is_some() && self.left(a) == self.left(b),
            Op::Right => self.right(a).is_some() && self.right(a) == self.right(b),
            Op::Dom(n, d, an) => self.edge("Dominance", n, d, an, a, b),
            Op::Point(n, d, an) => self.edge("Pointing", n, d, an, a, b),
            Op::PartOf(d) => self.paths("PartOf", "annis", "", a, b).into_iter().any(|x| within(x, d)),
            Op::Ident => a == b,
        }
    }
    /// distinct nodes a node has dominance or pointing edges to
    pub fn arity(&self, n: u64) -> usize {
        let mut s = BTreeSet::new();
        for (c, m) in &self.w.edges {
            if c.0 == "Dominance" || c.0 == "Pointing" {
                s.extend(m.keys().filter(|e| e.0 == n).map(|e| e.1));
            }
        }
        s.len()
    }
    /// (node, namespace, name) found by a node condition
    pub fn search(&self, s: &NodeSearchSpec) -> Vec<(u64, String, String)> {
        use NodeSearchSpec::*;
        let full = |v: &str, s: &str| regex::Regex::new(&format!("^(?:{v})$")).unwrap().is_match(s);
        let mut r = vec![];
        for (n, l) in &self.w.nodes {
            let tokval = l.get(&("annis".to_string(), "tok".to_string()));
            let tok = |ok: &dyn Fn(&str) -> bool, leaf: bool| tokval.is_some_and(|v| ok(v)) && (!leaf || self.is_token(*n));
            let mut labels = |ns: &Option<String>, name: &str, ok: &dyn Fn(&str) -> bool| {
                for ((a, b), v) in l {
                    if b == name && ns.as_ref().is_none_or(|x| x == a) && ok(v) {
                        r.push((*n, a.clone(), b.clone()));
                    }
                }
            };
            let hit = match s {
                ExactValue { ns, name, val, .. } => {
                    labels(ns, name, &|v| val.as_ref().is_none_or(|x| x == v));
                    false
                }
                NotExactValue { ns, name, val, .. } => {
                    labels(ns, name, &|v| val != v);
                    false
                }
                RegexValue { ns, name, val, .. } => {
                    labels(ns, name, &|v| full(val, v));
                    false
                }
                NotRegexValue { ns, name, val, .. } => {
                    labels(ns, name, &|v| !full(val, v));
                    false
                }
                ExactTokenValue { val, leafs_only } => tok(&|v| v == val, *leafs_only),
                NotExactTokenValue { val } => tok(&|v| v != val, true),
                RegexTokenValue { val, leafs_only } => tok(&|v| full(val, v), *leafs_only),
                NotRegexTokenValue { val } => tok(&|v| !full(val, v), true),
                AnyToken => tok(&|_| true, true),
                AnyNode => l.get(&("annis".to_string(), "node_type".to_string())).is_some_and(|t| t == "node"),
            };
            if hit {
                // the result stands for the node
                r.push((*n, "annis".into(), "node_type".into()));
            }
        }
        r
    }
}

/// A corpus with linear texts: tokens, spans with and without gaps, structures, segmentations, nodes
/// that cover nothing, edges in several layers, annotations with the same name in two namespaces.
pub fn events(rng: &mut Rng, root: &str, docs: usize, max_tok: usize) -> Vec<UpdateEvent> {
    let o = Opts { docs, max_tok, spans: 3, structs: 3, pointing: 4 };
    let c = random(rng, root, &o);
    let mut ev = c.events.clone();
    let plain = rng.chance(1, 8);
    if plain {
        // only tokens: no coverage at all
        ev.retain(|e| match e {
            UpdateEvent::AddEdge { component_type, .. } | UpdateEvent::AddEdgeLabel { component_type, .. } => component_type != "Coverage" && component_type != "Dominance",
            _ => true,
        });
    }
    for (d, dn) in c.docs.iter().enumerate() {
        let toks: Vec<String> = c.nodes.iter().filter(|n| n.is_tok && n.doc == d).map(|n| n.name.clone()).collect();
        // annotations with the same name in another namespace
        for n in c.nodes.iter().filter(|n| n.doc == d) {
            if rng.chance(1, 4) {
                ev.push(add_label(&n.name, rng.pick(&["other", "test"][..]), "pos", rng.pick(&["A", "B", "C", "a", "x"][..])));
            }
            if rng.chance(1, 5) {
                ev.push(add_label(&n.name, "test", "lemma", rng.pick(&["a", "b", "abc", "A"][..])));
            }
        }
        // a second ordering on the base tokens
        if rng.chance(1, 2) {
            for w in toks.windows(2) {
                if rng.chance(5, 6) {
                    ev.push(add_edge(&w[0], &w[1], "default_ns", "Ordering", "dipl"));
                }
            }
        }
        if plain {
            continue;
        }
        // segmentation nodes over one or more base tokens each
        let mut segs: Vec<String> = vec![];
        if rng.chance(2, 3) {
            let mut at = 0;
            while at < toks.len() {
                let k = rng.range(1, 3).min(toks.len() - at);
                if rng.chance(4, 5) {
                    let name = format!("{dn}#seg{}", segs.len());
                    ev.push(add_node(&name, "node"));
                    ev.push(add_label(&name, NS, "tok", rng.pick(&["a", "ab", "y"][..])));
                    ev.push(add_edge(&name, dn, NS, "PartOf", ""));
                    for t in &toks[at..at + k] {
                        ev.push(add_edge(&name, t, rng.pick(&[NS, "default_ns"][..]), "Coverage", ""));
                    }
                    segs.push(name);
                }
                at += k;
            }
            for w in segs.windows(2) {
                ev.push(add_edge(&w[0], &w[1], "default_ns", "Ordering", "norm"));
            }
        }
        // a span over segmentation nodes
        if !segs.is_empty() && rng.chance(1, 2) {
            let name = format!("{dn}#segspan");
            ev.push(add_node(&name, "node"));
            ev.push(add_label(&name, "test", "span", "A"));
            for s in &segs {
                if rng.chance(1, 2) {
                    ev.push(add_edge(&name, s, NS, "Coverage", ""));
                }
            }
        }
        // a structure over anything, in another layer and with another edge name
        let all: Vec<String> = c.nodes.iter().filter(|n| n.doc == d).map(|n| n.name.clone()).chain(segs.iter().cloned()).collect();
        if rng.chance(1, 2) {
            let name = format!("{dn}#m");
            ev.push(add_node(&name, "node"));
            ev.push(add_label(&name, "test", "cat", "M"));
            for _ in 0..rng.range(1, 4) {
                let t = rng.pick(&all).clone();
                let (layer, n) = *rng.pick(&[("other", ""), ("other", "edge"), ("test", ""), ("other", "sec")]);
                ev.push(add_edge(&name, &t, layer, "Dominance", n));
                if rng.chance(1, 2) {
                    ev.push(add_edge_label(&name, &t, layer, "Dominance", n, rng.pick(&["func", "x"][..]), rng.pick(&["SB", "OA", ""][..])));
                }
            }
        }
        // a node that covers nothing
        if rng.chance(1, 2) {
            let name = format!("{dn}#free");
            ev.push(add_node(&name, "node"));
            ev.push(add_label(&name, "test", "cat", "F"));
            ev.push(add_edge(&name, dn, NS, "PartOf", ""));
            ev.push(add_edge(rng.pick(&all), &name, "test", "Pointing", "dep"));
        }
        // pointing relations in a second layer and with an empty name
        for _ in 0..rng.below(4) {
            let (a, b) = (rng.pick(&all).clone(), rng.pick(&all).clone());
            let (layer, n) = *rng.pick(&[("other", "dep"), ("", "dep"), ("test", ""), ("test", "coref")]);
            ev.push(add_edge(&a, &b, layer, "Pointing", n));
            if rng.chance(1, 2) {
                ev.push(add_edge_label(&a, &b, layer, "Pointing", n, rng.pick(&["func", "x"][..]), rng.pick(&["subj", "obj", "SB"][..])));
            }
        }
    }
    ev
}
pub fn dist(rng: &mut Rng) -> Dist {
    match rng.below(8) {
        0..=2 => Some((1, 1)),
        3 => None,
        4 => Some((2, 2)),
        5 => {
            let a = rng.range(1, 3);
            Some((a, a + rng.below(3)))
        }
        6 => Some((rng.range(1, 3), 100)),
        _ => Some((2, 1)),
    }
}
pub fn edge_anno(rng: &mut Rng) -> Option<EdgeAnno> {
    let ns = if rng.chance(1, 3) { Some(rng.pick(&["test", "other"][..]).to_string()) } else { None };
    let n = rng.pick(&["func", "func", "x"][..]).to_string();
    let v = rng.pick(&["SB", "subj", "obj", ""][..]).to_string();
    match rng.below(8) {
        0 => Some(EdgeAnno::Exact(ns, n, Some(v))),
        1 => Some(EdgeAnno::Exact(ns, n, None)),
        2 => Some(EdgeAnno::NotExact(ns, n, v)),
        3 => Some(EdgeAnno::Regex(ns, n, rng.pick(&["S.", ".*b.*", "o", "subj|SB"][..]).to_string())),
        4 => Some(EdgeAnno::NotRegex(ns, n, rng.pick(&["S.", ".*b.*", "o", "subj|SB"][..]).to_string())),
        _ => None,
    }
}
pub fn op(rng: &mut Rng, kind: usize) -> Op {
    let seg = |rng: &mut Rng| match rng.below(5) {
        0 => Some("norm".to_string()),
        1 => Some("dipl".to_string()),
        _ => None,
    };
    match kind % 12 {
        0 => Op::Prec(seg(rng), dist(rng)),
        1 => Op::Near(seg(rng), dist(rng)),
        2 => Op::Overlap,
        3 => Op::Incl,
        4 => Op::IdentCov,
        5 => Op::Left,
        6 => Op::Right,
        7 => Op::Dom(rng.pick(&["", "edge", "sec"][..]).to_string(), dist(rng), edge_anno(rng)),
        8 => Op::Point(rng.pick(&["dep", "dep", "", "coref"][..]).to_string(), dist(rng), edge_anno(rng)),
        9 => Op::PartOf(dist(rng)),
        10 => Op::Ident,
        _ => Op::OverlapReflexive,
    }
}

pub struct Built {
    pub g: AnnotationGraph,
    pub s: Sem,
    /// model id -> id in the graph
    pub id: BTreeMap<u64, u64>,
    pub names: BTreeMap<u64, String>,
}
pub fn build(rng: &mut Rng, i: usize, toks: usize, tr: &mut Trace) -> Result<Built, String> {
    let docs = rng.range(1, 2);
    let toks = if i % 12 == 11 { 1 } else { toks };
    let ev = events(rng, "c", docs, toks);
    build_from(ev, i, tr)
}
/// few tokens, many spans over the same ones
pub fn build_crowded(rng: &mut Rng, i: usize, tr: &mut Trace) -> Result<Built, String> {
    use crate::corpus::*;
    let mut ev = vec![add_node("c", "corpus"), add_node("c/d", "corpus"), add_edge("c/d", "c", "annis", "PartOf", "")];
    let toks = rng.range(1, 3);
    for t in 0..toks {
        let name = format!("c/d#t{t}");
        ev.push(add_node(&name, "node"));
        ev.push(add_label(&name, "annis", "tok", rng.pick(&["a", "b"][..])));
        ev.push(add_edge(&name, "c/d", "annis", "PartOf", ""));
        if t > 0 {
            ev.push(add_edge(&format!("c/d#t{}", t - 1), &name, "annis", "Ordering", ""));
        }
    }
    for k in 0..rng.range(2, 5) {
        let name = format!("c/d#s{k}");
        ev.push(add_node(&name, "node"));
        ev.push(add_label(&name, "test", "span", rng.pick(&["A", "B"][..])));
        if rng.chance(1, 2) {
            ev.push(add_label(&name, "test", "pos", rng.pick(&["A", "B"][..])));
        }
        ev.push(add_edge(&name, "c/d", "annis", "PartOf", ""));
        let a = rng.below(toks);
        let b = if rng.chance(2, 3) { a } else { rng.range(a, toks - 1) };
        for t in a..=b {
            ev.push(add_edge(&name, &format!("c/d#t{t}"), "annis", "Coverage", ""));
        }
    }
    build_from(ev, i, tr)
}
fn build_from(ev: Vec<UpdateEvent>, i: usize, tr: &mut Trace) -> Result<Built, String> {
    tr.note("events", &ev);
    let mut w = World::default();
    for e in &ev {
        w.apply(e);
    }
    let disk = i % 6 == 5;
    let mut g = ok(AnnotationGraph::with_default_graphstorages(disk), "new graph")?;
    ok(g.apply_update(&mut upd::update(&ev)?, |_| {}), "apply_update")?;
    if i % 2 == 1 {
        ok(g.optimize_impl(disk), "optimize_impl")?;
        tr.note("optimised, on disk", &disk);
    } else {
        ok(g.calculate_all_statistics(), "calculate_all_statistics")?;
    }
    ok(g.ensure_loaded_all(), "ensure_loaded_all")?;
    let mut id = BTreeMap::new();
    let mut names = BTreeMap::new();
    for n in w.nodes.keys() {
        let name = w.name(*n);
        let x = ok(g.get_node_annos().get_node_id_from_name(&name), "node by name")?.ok_or("missing node")?;
        id.insert(*n, x);
        names.insert(x, name);
    }
    Ok(Built { g, s: Sem::new(w), id, names })
}
