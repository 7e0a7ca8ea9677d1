//! Queries and their meaning, read off a plain model of the corpus (P13, P14).
use crate::ops::*;
use crate::*;
use graphannis::annis::db::aql::conjunction::Conjunction;
use graphannis::annis::db::aql::operators::*;
use graphannis::annis::db::exec::nodesearch::NodeSearchSpec;
use graphannis::errors::GraphAnnisError;
use std::collections::BTreeSet;
use std::sync::Arc;

/// a found node with the annotation it was found by
pub type Hit = (u64, String, String);

#[derive(Clone, Debug)]
pub enum Lit {
    Bin { op: Op, l: usize, r: usize, neg: bool },
    Val { l: usize, r: usize, neg: bool },
    Arity { n: usize, d: Dist },
    /// no partner of node `n` is found by the optional node `o`
    Absent { op: Op, n: usize, o: usize, target_left: bool },
}
#[derive(Clone, Debug, Default)]
pub struct Alt {
    /// condition, and whether the node is optional
    pub nodes: Vec<(NodeSearchSpec, bool)>,
    pub lits: Vec<Lit>,
}

pub fn spec(rng: &mut Rng) -> NodeSearchSpec {
    use NodeSearchSpec::*;
    let ns = if rng.chance(1, 3) { Some(rng.pick(&["test", "other"][..]).to_string()) } else { None };
    let name = rng.pick(&["pos", "pos", "lemma", "span", "cat"][..]).to_string();
    let val = rng.pick(&["A", "B", "S", "M", "a"][..]).to_string();
    let re = rng.pick(&["A|a", "[AB]", "S", ".*", "", r"\bA", r"A\B", "A$", "^a", r"\BA", "[a&&b]", "A*", "(?i)a", "x{0}A"][..]).to_string();
    let tok = rng.pick(&["a", "b", "ab", "x", "y"][..]).to_string();
    match rng.below(16) {
        0 => ExactValue { ns, name, val: Some(val), is_meta: false },
        1..=3 => ExactValue { ns, name, val: None, is_meta: false },
        4 => NotExactValue { ns, name, val, is_meta: false },
        5 | 6 => RegexValue { ns, name, val: re, is_meta: false },
        7 => NotRegexValue { ns, name, val: re, is_meta: false },
        8 | 9 => AnyToken,
        10 => ExactTokenValue { val: tok, leafs_only: rng.chance(1, 2) },
        11 => NotExactTokenValue { val: tok },
        12 => RegexTokenValue { val: re.to_lowercase().replace(r"\b", r"\b"), leafs_only: rng.chance(1, 2) },
        13 => NotRegexTokenValue { val: re },
        _ => AnyNode,
    }
}

pub fn alt(rng: &mut Rng, max_nodes: usize) -> Alt {
    let n = rng.range(1, max_nodes);
    let mut a = Alt::default();
    for _ in 0..n {
        a.nodes.push((spec(rng), false));
    }
    let kind = rng.below(1000);
    let one_kind = rng.chance(1, 3);
    let any_op = |rng: &mut Rng, i: usize| if one_kind { op(rng, kind) } else { op(rng, kind + i) };
    for i in 1..n {
        let j = rng.below(i);
        let op = any_op(rng, i);
        let (l, r) = if rng.chance(1, 2) { (i, j) } else { (j, i) };
        a.lits.push(Lit::Bin { op, l, r, neg: false });
    }
    for k in 0..rng.below(3) {
        let (l, r) = (rng.below(n), rng.below(n));
        a.lits.push(match rng.below(6) {
            0 | 1 => Lit::Bin { op: any_op(rng, k), l, r, neg: false },
            2 => Lit::Bin { op: any_op(rng, k), l, r, neg: true },
            3 => Lit::Arity { n: l, d: Some((0, rng.below(3))) },
            _ => Lit::Val { l, r, neg: rng.chance(1, 3) },
        });
    }
    if rng.chance(1, 6) {
        // an optional node at any position
        let at = rng.below(n + 1);
        let shift = |x: &mut usize| if *x >= at { *x += 1 };
        for l in &mut a.lits {
            match l {
                Lit::Bin { l, r, .. } | Lit::Val { l, r, .. } => {
                    shift(l);
                    shift(r);
                }
                Lit::Arity { n, .. } => shift(n),
                Lit::Absent { .. } => (),
            }
        }
        a.nodes.insert(at, (spec(rng), true));
        let mut n = rng.below(n);
        shift(&mut n);
        a.lits.push(Lit::Absent { op: any_op(rng, 0), n, o: at, target_left: rng.chance(1, 2) });
    }
    rng.shuffle(&mut a.lits);
    a
}

/// queries that find the same nodes several times, with operators that do not accept this
pub fn crowded(rng: &mut Rng, n: usize) -> Alt {
    use NodeSearchSpec::*;
    let mut a = Alt::default();
    for _ in 0..n {
        let s = match rng.below(6) {
            0 | 1 => AnyNode,
            2 => AnyToken,
            3 => ExactValue { ns: None, name: "pos".into(), val: None, is_meta: false },
            4 => ExactValue { ns: None, name: "span".into(), val: Some("A".into()), is_meta: false },
            _ => ExactValue { ns: Some("test".into()), name: "span".into(), val: None, is_meta: false },
        };
        a.nodes.push((s, false));
    }
    let kinds = [2, 3, 4, 5, 6, 9];
    // a chain, a star, or pairs that are joined afterwards
    let shape = rng.below(4);
    let mut order: Vec<usize> = (0..n).collect();
    rng.shuffle(&mut order);
    for i in 1..n {
        let j = match shape {
            0 => i - 1,
            1 => 0,
            2 => i - 1 - (i - 1) % 2,
            _ => rng.below(i),
        };
        let k = if rng.chance(1, 4) { 1 } else { *rng.pick(&kinds[..]) };
        let op = op(rng, k);
        let (l, r) = if rng.chance(1, 2) { (order[i], order[j]) } else { (order[j], order[i]) };
        a.lits.push(Lit::Bin { op, l, r, neg: false });
    }
    if rng.chance(1, 5) {
        let k = *rng.pick(&kinds[..]);
        let (l, r) = (rng.below(n), rng.below(n));
        a.lits.push(Lit::Bin { op: op(rng, k), l, r, neg: true });
    }
    rng.shuffle(&mut a.lits);
    a
}

impl Lit {
    pub fn text(&self, off: usize) -> Option<String> {
        let v = |i: usize| format!("#v{}", i + off);
        let expressible = |op: &Op| match op {
            Op::OverlapReflexive => false,
            Op::Dom(_, d, Some(a)) | Op::Point(_, d, Some(a)) => *d == Some((1, 1)) && !matches!(a, EdgeAnno::Exact(_, _, None)),
            _ => true,
        } && !matches!(op, Op::Point(n, ..) if n.is_empty());
        Some(match self {
            Lit::Bin { op, l, r, neg } => {
                if !expressible(op) {
                    return None;
                }
                format!("{} {}{} {}", v(*l), if *neg { "!" } else { "" }, op.aql(), v(*r))
            }
            Lit::Val { l, r, neg } => format!("{} {} {}", v(*l), if *neg { "!=" } else { "==" }, v(*r)),
            Lit::Arity { n, d: Some((a, b)) } => format!("{}:arity={a},{b}", v(*n)),
            Lit::Arity { .. } => return None,
            Lit::Absent { op, n, o, target_left } => {
                if !expressible(op) {
                    return None;
                }
                let (a, b) = if *target_left { (o, n) } else { (n, o) };
                format!("{} !{} {}", v(*a), op.aql(), v(*b))
            }
        })
    }
}
impl Alt {
    /// AQL text, if the query can be written down
    pub fn text(&self, off: usize) -> Option<String> {
        let mut p = vec![];
        for (i, (s, opt)) in self.nodes.iter().enumerate() {
            p.push(format!("v{}#{s}{}", i + off, if *opt { "?" } else { "" }));
        }
        for l in &self.lits {
            p.push(l.text(off)?);
        }
        Some(p.join(" & "))
    }
    pub fn debug(&self) -> String {
        self.text(0).unwrap_or_else(|| format!("{self:?}"))
    }
    pub fn conjunction(&self, global: bool) -> Result<Conjunction, GraphAnnisError> {
        let mut c = Conjunction::new();
        for (i, (s, opt)) in self.nodes.iter().enumerate() {
            c.add_node_from_query(s.clone(), Some(&format!("v{i}")), None, true, *opt);
        }
        let v = |i: usize| format!("v{i}");
        for l in &self.lits {
            match l {
                Lit::Bin { op, l, r, neg } => {
                    let sp = op.spec();
                    let sp = if *neg { Arc::new(NegatedOpSpec { negated_op: sp }) } else { sp };
                    c.add_operator(sp, &v(*l), &v(*r), global)?;
                }
                Lit::Val { l, r, neg } => {
                    let sp = EqualValueSpec { spec_left: self.nodes[*l].0.clone(), spec_right: self.nodes[*r].0.clone(), negated: *neg };
                    c.add_operator(Arc::new(sp), &v(*l), &v(*r), global)?;
                }
                Lit::Arity { n, d } => {
                    let children = match d {
                        None => RangeSpec::Unbound,
                        Some((min_dist, max_dist)) => RangeSpec::Bound { min_dist: *min_dist, max_dist: *max_dist },
                    };
                    c.add_unary_operator_from_query(Arc::new(AritySpec { children }), &v(*n), None)?;
                }
                Lit::Absent { op, n, o, target_left } => {
                    let sp = NonExistingUnaryOperatorSpec { op: op.spec(), target: self.nodes[*o].0.clone(), target_left: *target_left };
                    c.add_unary_operator_from_query(Arc::new(sp), &v(*n), None)?;
                }
            }
        }
        Ok(c)
    }
    fn value(&self, s: &Sem, i: usize, h: &Hit) -> Option<String> {
        use NodeSearchSpec::*;
        let key = match &self.nodes[i].0 {
            AnyNode => return None,
            AnyToken | ExactTokenValue { .. } | NotExactTokenValue { .. } | RegexTokenValue { .. } | NotRegexTokenValue { .. } => ("annis".to_string(), "tok".to_string()),
            _ => (h.1.clone(), h.2.clone()),
        };
        s.w.nodes[&h.0].get(&key).cloned()
    }
    /// the conditions on the nodes alone and their pairs; not how often a node may occur in a match
    fn holds(&self, s: &Sem, l: &Lit, m: &[Option<Hit>], absent: &[BTreeSet<u64>]) -> bool {
        let h = |i: usize| m[i].as_ref().unwrap();
        match l {
            Lit::Bin { op, l, r, neg } => {
                let (a, b) = (h(*l), h(*r));
                s.accepts(op, a.0, b.0) != *neg && (!op.excludes_itself() || a != b)
            }
            Lit::Val { l, r, neg } => match (self.value(s, *l, h(*l)), self.value(s, *r, h(*r))) {
                (Some(a), Some(b)) => (a == b) != *neg,
                _ => false,
            },
            Lit::Arity { n, d } => within(s.arity(h(*n).0), d),
            Lit::Absent { op, n, o, target_left } => {
                let x = h(*n).0;
                !absent[*o].iter().any(|y| if *target_left { s.accepts(op, *y, x) } else { s.accepts(op, x, *y) })
            }
        }
    }
    /// all matches: one hit per node that is not optional, in the order of the query. If `global`, nodes
    /// of operators that do not accept a node as its own partner differ from all other nodes.
    pub fn matches(&self, s: &Sem, global: bool) -> BTreeSet<Vec<Hit>> {
        let hits: Vec<Vec<Hit>> = self.nodes.iter().map(|(n, _)| s.search(n)).collect();
        let absent: Vec<BTreeSet<u64>> = self.nodes.iter().zip(&hits).map(|((_, o), h)| if *o { h.iter().map(|x| x.0).collect() } else { BTreeSet::new() }).collect();
        let last = |l: &Lit| match l {
            Lit::Bin { l, r, .. } | Lit::Val { l, r, .. } => *l.max(r),
            Lit::Arity { n, .. } | Lit::Absent { n, .. } => *n,
        };
        let single: BTreeSet<usize> = self
            .lits
            .iter()
            .filter_map(|l| match l {
                Lit::Bin { op, l, r, .. } if global && op.excludes_itself() => Some([*l, *r]),
                _ => None,
            })
            .flatten()
            .collect();
        let mut res = BTreeSet::new();
        let mut m: Vec<Option<Hit>> = vec![None; self.nodes.len()];
        fn rec(me: &Alt, s: &Sem, i: usize, m: &mut Vec<Option<Hit>>, hits: &[Vec<Hit>], ok: &dyn Fn(usize, &[Option<Hit>]) -> bool, res: &mut BTreeSet<Vec<Hit>>) {
            if i == me.nodes.len() {
                res.insert(m.iter().flatten().cloned().collect());
                return;
            }
            if me.nodes[i].1 {
                return rec(me, s, i + 1, m, hits, ok, res);
            }
            for h in &hits[i] {
                m[i] = Some(h.clone());
                if ok(i, m) {
                    rec(me, s, i + 1, m, hits, ok, res);
                }
            }
            m[i] = None;
        }
        rec(
            self,
            s,
            0,
            &mut m,
            &hits,
            &|i, m| {
                self.lits.iter().filter(|l| last(l) == i).all(|l| self.holds(s, l, m, &absent))
                    && (0..i).all(|j| !(single.contains(&i) || single.contains(&j)) || m[j].is_none() || m[i] != m[j])
            },
            &mut res,
        );
        res
    }
}
