//! P12: every operator, tested on all pairs, listed from both sides, against its documented meaning.
use graphannis::annis::db::aql::operators::*;
use graphannis::annis::db::exec::nodesearch::NodeSearchSpec;
use graphannis::annis::operator::*;
use graphannis_core::annostorage::Match;
use graphannis_core::graph::DEFAULT_ANNO_KEY;
use graphannis_core::types::AnnoKey;
use replay::ops::*;
use replay::upd::World;
use replay::*;
use std::collections::BTreeMap;
use std::sync::Arc;

fn m(n: u64) -> Match {
    Match { node: n, anno_key: DEFAULT_ANNO_KEY.clone() }
}

/// pairs given as graph ids
fn check(what: &str, b: &Built, op: &BinaryOperator, want: &dyn Fn(u64, u64) -> bool) -> Result<(), String> {
    let rev: BTreeMap<u64, u64> = b.id.iter().map(|(a, b)| (*b, *a)).collect();
    for (x, gx) in &b.id {
        for (y, gy) in &b.id {
            let got = ok(op.filter_match(&m(*gx), &m(*gy)), &format!("{what}: test"))?;
            ensure!(got == want(*x, *y), "{what}: test of {} and {}: got {got}", b.names[gx], b.names[gy]);
        }
        if let BinaryOperator::Index(op) = op {
            let mut found = BTreeMap::new();
            for r in op.retrieve_matches(&m(*gx)) {
                *found.entry(ok(r, &format!("{what}: listing"))?.node).or_insert(0) += 1;
            }
            for (n, k) in &found {
                ensure!(rev.contains_key(n), "{what}: partner {n} of {} is no node of the corpus", b.names[gx]);
                ensure!(*k == 1, "{what}: {} is listed {k} times as partner of {}", b.names[n], b.names[gx]);
            }
            for (y, gy) in &b.id {
                let got = found.contains_key(gy);
                ensure!(got == want(*x, *y), "{what}: partners of {}: {} is {}", b.names[gx], b.names[gy], if got { "listed but not accepted" } else { "missing" });
            }
            for (y, gy) in b.id.iter().take(3) {
                let got = ok(op.as_binary_operator().filter_match(&m(*gx), &m(*gy)), "test")?;
                ensure!(got == want(*x, *y), "{what}: as_binary_operator: test of {} and {}: got {got}", b.names[gx], b.names[gy]);
            }
        }
    }
    Ok(())
}

fn main() {
    let mut c = Ctx::from_args();
    c.rule("random annotated corpora (one or two linear texts, tokens, spans with and without gaps, structures, segmentations, nodes covering nothing, several layers; in memory or on disk, optimised or not) with random operators and ranges: the test of all pairs, the listing from every node, and both for the inverse and the inverse of the inverse, against the documented meaning");
    c.run("operators", 120, |rng, i, tr| {
        let b = build(rng, i, 7, tr)?;
        for k in 0..6 {
            let o = op(rng, i * 6 + k);
            tr.note("operator", &o.aql());
            let op = match o.spec().create_operator(&b.g, None) {
                Ok(op) => op,
                Err(e) => {
                    // the component does not exist: nothing is found
                    for x in b.id.keys() {
                        for y in b.id.keys() {
                            ensure!(!b.s.accepts(&o, *x, *y), "{}: {e:?} but {} and {} belong together", o.aql(), b.s.w.name(*x), b.s.w.name(*y));
                        }
                    }
                    continue;
                }
            };
            check(&o.aql(), &b, &op, &|x, y| b.s.accepts(&o, x, y))?;
            eq(op.is_reflexive(), !o.excludes_itself(), &format!("{}: is_reflexive", o.aql()))?;
            ok(op.estimation_type(), "estimation_type")?;
            if let Some(inv) = ok(op.get_inverse_operator(&b.g), "inverse")? {
                check(&format!("inverse of {}", o.aql()), &b, &inv, &|x, y| b.s.accepts(&o, y, x))?;
                eq(inv.is_reflexive(), !o.excludes_itself(), &format!("inverse of {}: is_reflexive", o.aql()))?;
                ok(inv.estimation_type(), "estimation_type")?;
                if let Some(inv2) = ok(inv.get_inverse_operator(&b.g), "inverse")? {
                    check(&format!("inverse of the inverse of {}", o.aql()), &b, &inv2, &|x, y| b.s.accepts(&o, x, y))?;
                }
            }
            // negated: the other pairs
            if k == 0 {
                let neg = ok(NegatedOpSpec { negated_op: o.spec() }.create_operator(&b.g, None), "negated operator")?;
                check(&format!("!{}", o.aql()), &b, &neg, &|x, y| !b.s.accepts(&o, x, y))?;
            }
        }
        Ok(())
    });
    let spec = |rng: &mut Rng| -> NodeSearchSpec {
        let ns = if rng.chance(1, 3) { Some(rng.pick(&["test", "other"][..]).to_string()) } else { None };
        let name = rng.pick(&["pos", "lemma", "span", "cat"][..]).to_string();
        match rng.below(9) {
            0 => NodeSearchSpec::ExactValue { ns, name, val: Some(rng.pick(&["A", "B", "S"][..]).to_string()), is_meta: false },
            1..=3 => NodeSearchSpec::ExactValue { ns, name, val: None, is_meta: false },
            4 => NodeSearchSpec::NotExactValue { ns, name, val: "A".into(), is_meta: false },
            5 => NodeSearchSpec::RegexValue { ns, name, val: "A|a".into(), is_meta: false },
            6 => NodeSearchSpec::AnyToken,
            7 => NodeSearchSpec::ExactTokenValue { val: "a".into(), leafs_only: rng.chance(1, 2) },
            _ => NodeSearchSpec::AnyNode,
        }
    };
    c.rule("equality and inequality of values for random pairs of node conditions: the test of all pairs of matches, the listing and the inverse");
    c.run("values", 60, |rng, i, tr| {
        let b = build(rng, i, 7, tr)?;
        let rev: BTreeMap<u64, u64> = b.id.iter().map(|(a, b)| (*b, *a)).collect();
        for _ in 0..4 {
            let (l, r, negated) = (spec(rng), spec(rng), rng.chance(1, 2));
            tr.note("operator", &format!("{l} {} {r}", if negated { "!=" } else { "==" }));
            let hits = |s: &NodeSearchSpec| -> Vec<(Match, Option<String>)> {
                b.s.search(s).into_iter().map(|(n, ns, name)| {
                    let key = match s {
                        NodeSearchSpec::AnyNode => None,
                        NodeSearchSpec::AnyToken | NodeSearchSpec::ExactTokenValue { .. } => Some(("annis".to_string(), "tok".to_string())),
                        _ => Some((ns.clone(), name.clone())),
                    };
                    let v = key.and_then(|k| b.s.w.nodes[&n].get(&k).cloned());
                    (Match { node: b.id[&n], anno_key: Arc::new(AnnoKey { ns: ns.as_str().into(), name: name.as_str().into() }) }, v)
                }).collect()
            };
            let (ls, rs) = (hits(&l), hits(&r));
            let want = |a: &Option<String>, b: &Option<String>| a.is_some() && b.is_some() && (a == b) != negated;
            let sp = EqualValueSpec { spec_left: l.clone(), spec_right: r.clone(), negated };
            let op = ok(sp.create_operator(&b.g, None), "operator")?;
            let inv = ok(op.get_inverse_operator(&b.g), "inverse")?;
            let mut sides = vec![(&op, &ls, &rs, "")];
            if let Some(inv) = &inv {
                sides.push((inv, &rs, &ls, "inverse: "));
            }
            for (op, ls, rs, what) in sides {
                for (lm, lv) in ls {
                    for (rm, rv) in rs {
                        let got = ok(op.filter_match(lm, rm), "test")?;
                        ensure!(got == want(lv, rv), "{what}test of {lm:?} ({lv:?}) and {rm:?} ({rv:?}): got {got}");
                    }
                    if let BinaryOperator::Index(op) = op {
                        let found: Result<Vec<Match>, _> = op.retrieve_matches(lm).collect();
                        let found = ok(found, "listing")?;
                        for f in &found {
                            ensure!(rev.contains_key(&f.node), "{what}listing of {lm:?}: unknown node");
                        }
                        for (rm, rv) in rs {
                            let got = found.iter().any(|f| f.node == rm.node);
                            ensure!(got || !want(lv, rv), "{what}listing of {lm:?} ({lv:?}): {rm:?} ({rv:?}) is missing");
                            let key = found.iter().any(|f| f.node == rm.node && f.anno_key.name == rm.anno_key.name && f.anno_key.ns == rm.anno_key.ns);
                            ensure!(!key || want(lv, rv), "{what}listing of {lm:?} ({lv:?}): {rm:?} ({rv:?}) is not accepted");
                        }
                    }
                }
            }
        }
        Ok(())
    });
    c.rule("number of children, and the absence of a partner, for every node of random corpora");
    c.run("unary", 60, |rng, i, tr| {
        let b = build(rng, i, 7, tr)?;
        for _ in 0..3 {
            let d = match dist(rng) { Some((_, 1)) => Some((0, rng.below(3))), x => x };
            let a = AritySpec { children: match d { None => RangeSpec::Unbound, Some((min_dist, max_dist)) => RangeSpec::Bound { min_dist, max_dist } } };
            tr.note("arity", &a);
            let op = ok(a.create_operator(&b.g), "arity")?;
            for (x, gx) in &b.id {
                let n = b.s.arity(*x);
                eq(ok(op.filter_match(&m(*gx)), "arity")?, within(n, &d), &format!("{a:?} of {} with {n} children", b.names[gx]))?;
            }
        }
        for k in 0..4 {
            let o = op(rng, i * 4 + k);
            let t = spec(rng);
            for target_left in [false, true] {
                tr.note("no partner", &(o.aql(), &t, target_left));
                let sp = NonExistingUnaryOperatorSpec { op: o.spec(), target: t.clone(), target_left };
                let Ok(op) = sp.create_operator(&b.g) else { continue };
                let ts: Vec<u64> = b.s.search(&t).into_iter().map(|x| x.0).collect();
                for (x, gx) in &b.id {
                    let some = ts.iter().any(|y| if target_left { b.s.accepts(&o, *y, *x) } else { b.s.accepts(&o, *x, *y) });
                    let got = ok(op.filter_match(&m(*gx)), "no partner")?;
                    ensure!(got != some, "no partner ({} {t}, target on the left: {target_left}) for {}: got {got}", o.aql(), b.names[gx]);
                }
            }
        }
        Ok(())
    });
    c.finish();
}
