//! P14: estimates neither fail nor overflow, keep their bounds and do not change results.
use graphannis::annis::db::aql::Config;
use graphannis::annis::db::exec::ExecutionNodeDesc;
use graphannis::annis::db::plan::ExecutionPlan;
use graphannis::annis::util::TimeoutCheck;
use graphannis::aql;
use replay::ops::*;
use replay::query::*;
use replay::*;
use std::collections::{BTreeSet, HashMap};

/// estimates of a step and all steps below it
fn bounds(d: &ExecutionNodeDesc, text: &str) -> Result<usize, String> {
    let mut n = 0;
    for x in [&d.lhs, &d.rhs].into_iter().flatten() {
        n += bounds(x, text)?;
    }
    let Some(c) = &d.cost else { return Ok(n) };
    ensure!(c.output >= 1 || (d.lhs.is_none() && d.rhs.is_none()), "no result estimated for {}\n{text}", d.query_fragment);
    let parts: Vec<_> = [&d.lhs, &d.rhs].into_iter().flatten().filter_map(|x| x.cost.as_ref()).collect();
    if parts.len() == 2 {
        n += 1;
        let max = parts[0].output.saturating_mul(parts[1].output).max(1);
        ensure!(c.output <= max, "{} of {} combinations estimated for {}\n{text}", c.output, max, d.query_fragment);
        let sum = c.processed_in_step.saturating_add(parts[0].intermediate_sum).saturating_add(parts[1].intermediate_sum);
        ensure!(c.intermediate_sum == sum, "sum of processed is {} instead of {sum} for {}\n{text}", c.intermediate_sum, d.query_fragment);
    } else if parts.len() == 1 && d.impl_description == "filter" {
        n += 1;
        ensure!(c.output <= parts[0].output.max(1), "{} of {} matches estimated after filter {}\n{text}", c.output, parts[0].output, d.query_fragment);
    }
    Ok(n)
}
/// the same for the description of a plan
fn text_bounds(text: &str) -> Result<usize, String> {
    let num = |l: &str, k: &str| l.rsplit(k).next().and_then(|x| x.split([',', ']']).next()).and_then(|x| x.trim().parse::<usize>().ok());
    // (indentation, output, sum, in this step)
    let mut steps: Vec<(usize, usize, usize, usize, String)> = vec![];
    for l in text.lines() {
        let at = l.len() - l.trim_start().len();
        let (Some(o), Some(s), Some(p)) = (num(l, "[out: "), num(l, ", sum: "), num(l, ", instep: ")) else { return Ok(0) };
        steps.push((at, o, s, p, l.trim().to_string()));
    }
    let mut n = 0;
    for (i, (at, o, s, p, l)) in steps.iter().enumerate() {
        let parts: Vec<_> = steps[i + 1..].iter().take_while(|x| x.0 > *at).filter(|x| x.0 == at + 4).collect();
        if parts.len() == 2 {
            n += 1;
            let max = parts[0].1.saturating_mul(parts[1].1).max(1);
            ensure!(*o <= max, "{o} of {max} combinations estimated for {l}\n{text}");
            let sum = p.saturating_add(parts[0].2).saturating_add(parts[1].2);
            ensure!(*s == sum, "sum of processed is {s} instead of {sum} for {l}\n{text}");
        } else if parts.len() == 1 && l.starts_with("+|filter") {
            n += 1;
            ensure!(*o <= parts[0].1.max(1), "{o} of {} matches estimated for {l}\n{text}", parts[0].1);
        }
    }
    Ok(n)
}
fn big(rng: &mut Rng) -> Dist {
    let v = [0, 1, 2, 3, 7, 1000, i32::MAX as usize - 1, i32::MAX as usize, i32::MAX as usize + 1, u32::MAX as usize, 1 << 40, i64::MAX as usize, i64::MAX as usize + 1, usize::MAX - 1, usize::MAX];
    if rng.chance(1, 12) {
        return None;
    }
    let (a, b) = (*rng.pick(&v[..]), *rng.pick(&v[..]));
    Some((a.min(b), a.max(b)))
}
fn ranges(rng: &mut Rng, op: &mut Op) {
    match op {
        Op::Prec(_, d) | Op::Near(_, d) | Op::Dom(_, d, _) | Op::Point(_, d, _) => {
            *d = big(rng);
            // the meaning of a distance of zero depends on the operator
            if matches!(d, Some((0, _))) { *d = d.map(|x| (1, x.1.max(1))); }
        }
        _ => {}
    }
}

fn main() {
    let mut c = Ctx::from_args();
    c.rule("random corpora and queries with one to four nodes whose operators have ranges up to the largest number: every order of joins, sequential and parallel: estimates of each step against the estimates of its parts, and the number of matches against a search through all combinations");
    c.run("ranges", 120, |rng, i, tr| {
        let b = build(rng, i, 4, tr)?;
        let mut joins = 0;
        for k in 0..5 {
            let mut q = alt(rng, 2 + k % 3);
            for l in q.lits.iter_mut() {
                match l {
                    Lit::Bin { op, .. } | Lit::Absent { op, .. } => ranges(rng, op),
                    Lit::Arity { d, .. } => *d = big(rng),
                    _ => {}
                }
            }
            tr.note("query", &q.debug());
            let want = q.matches(&b.s, true);
            let n_bin = q.lits.iter().filter(|l| matches!(l, Lit::Bin { .. } | Lit::Val { .. })).count();
            for par in [false, true] {
                let config = Config { use_parallel_joins: par };
                let d = ok(q.conjunction(true), "query")?.into_disjunction();
                let plan = ok(ExecutionPlan::from_disjunction(&d, &b.g, &config, TimeoutCheck::new(None)), "plan")?;
                let text = format!("{plan}");
                plan.estimated_output_size();
                let mut n = BTreeSet::new();
                for m in plan {
                    n.insert(ok(m, "match")?.iter().map(|m| (m.node, m.anno_key.ns.to_string(), m.anno_key.name.to_string())).collect::<Vec<_>>());
                }
                eq(n.len(), want.len(), &format!("matches of {}\n{text}", q.debug()))?;
                let conj = ok(q.conjunction(true), "query")?;
                for o in 0..n_bin.max(1) {
                    let mut order: Vec<usize> = (0..n_bin).collect();
                    order.rotate_left(o);
                    let mut cache = HashMap::new();
                    let Ok(node) = conj.make_exec_plan_with_order(&b.g, &config, order, &mut cache, TimeoutCheck::new(None)) else { continue };
                    if let Some(d) = node.get_desc() {
                        joins += bounds(d, &d.debug_string(""))?;
                    }
                }
            }
        }
        tr.trivial_if(joins == 0);
        Ok(())
    });
    c.rule("queries as text with ranges including zero: no failure");
    c.run("zero", 60, |rng, i, tr| {
        let b = build(rng, i, 4, tr)?;
        let zero = |rng: &mut Rng| if rng.chance(1, 2) { Some((0, 0)) } else { Some((0, *rng.pick(&[1, 2, 1000, usize::MAX][..]))) };
        for k in 0..8 {
            let mut q = alt(rng, 2 + k % 2);
            for l in q.lits.iter_mut() {
                match l {
                    Lit::Bin { op, .. } | Lit::Absent { op, .. } => match op {
                        Op::Prec(_, d) | Op::Near(_, d) | Op::Dom(_, d, _) | Op::Point(_, d, _) => *d = zero(rng),
                        _ => {}
                    },
                    Lit::Arity { d, .. } => *d = zero(rng),
                    _ => {}
                }
            }
            let Some(text) = q.text(0) else { continue };
            tr.note("query", &text);
            let d = ok(aql::parse(&text, false), "parse")?;
            for par in [false, true] {
                let plan = ok(ExecutionPlan::from_disjunction(&d, &b.g, &Config { use_parallel_joins: par }, TimeoutCheck::new(None)), "plan")?;
                for m in plan {
                    ok(m, "match")?;
                }
            }
        }
        Ok(())
    });
    c.rule("conjunctions of four to nine nodes on a corpus of 2000 nodes in a ring, only planned: the estimates reach the largest number and keep their bounds");
    let mut ev = vec![corpus::add_node("c", "corpus")];
    let name = |i: usize| format!("c/d#n{}", i % 2000);
    for i in 0..2000 {
        ev.push(corpus::add_node(&name(i), "node"));
        ev.push(corpus::add_label(&name(i), "annis", "tok", if i % 3 == 0 { "a" } else { "b" }));
    }
    for i in 0..2000 {
        ev.push(corpus::add_edge(&name(i), &name(i + 1), "x", "Pointing", "dep"));
        if i < 1999 {
            ev.push(corpus::add_edge(&name(i), &name(i + 1), "annis", "Ordering", ""));
        }
    }
    let mut g = graphannis::AnnotationGraph::with_default_graphstorages(false).unwrap();
    g.apply_update(&mut upd::update(&ev).unwrap(), |_| {}).unwrap();
    g.calculate_all_statistics().unwrap();
    g.ensure_loaded_all().unwrap();
    c.run("many", 40, |rng, _, tr| {
        let n = rng.range(4, 9);
        let mut t: Vec<String> = (0..n).map(|_| rng.pick(&["node", "tok", "node", "annis:node_type", "annis:node_type!=\"x\"", "annis:node_type=/.*/", "tok!=/c.*/", "tok=\"a\""][..]).to_string()).collect();
        for k in 2..=n {
            // every node has to be connected with another one
            let to = if rng.chance(1, 2) { k - 1 } else { rng.range(1, k - 1) };
            t.push(format!("#{to} {} #{k}", rng.pick(&["->dep*", "->dep*", "->dep*", "_o_", ".*", "^*", "^1,20", "->dep", "_ident_"][..])));
        }
        for _ in 0..rng.below(6) {
            let (a, z) = (rng.range(1, n), rng.range(1, n));
            if a != z {
                t.push(format!("#{a} !{} #{z}", rng.pick(&["_l_", "_=_", "_o_", ".", ">*", "_ident_", "^"][..])));
            }
        }
        let text = t.join(" & ");
        tr.note("query", &text);
        let mut joins = 0;
        let d = ok(aql::parse(&text, false), "parse")?;
        for par in [false, true] {
            let plan = ok(ExecutionPlan::from_disjunction(&d, &g, &Config { use_parallel_joins: par }, TimeoutCheck::new(None)), "plan")?;
            plan.estimated_output_size();
            joins += text_bounds(&format!("{plan}"))?;
        }
        tr.trivial_if(joins == 0);
        Ok(())
    });
    c.finish();
}
