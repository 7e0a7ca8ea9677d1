//! P08: histories of the on-disk table against a sorted map.
use graphannis_core::serializer::KeySerializer;
use graphannis_core::types::Edge;
use graphannis_core::util::disk_collections::{DiskMap, EvictionStrategy};
use replay::*;
use serde::{Serialize, de::DeserializeOwned};
use serde_bytes::ByteBuf;
use std::collections::BTreeMap;
use std::fmt::Debug;
use std::ops::Bound;
use transient_btree_index::BtreeConfig;

trait Key: 'static + KeySerializer + Serialize + DeserializeOwned + Clone + Send + Sync + Ord + Debug {}
impl<T: 'static + KeySerializer + Serialize + DeserializeOwned + Clone + Send + Sync + Ord + Debug> Key for T {}
trait Val: 'static + Serialize + DeserializeOwned + Clone + Send + Sync + PartialEq + Debug {}
impl<T: 'static + Serialize + DeserializeOwned + Clone + Send + Sync + PartialEq + Debug> Val for T {}

fn texts(rng: &mut Rng, n: usize) -> Vec<String> {
    let alphabet = ["a", "b", "\u{0}", "ä", "\u{10FFFF}", "aa", "z", "\u{7f}", " "];
    let mut r = vec!["\u{0}".to_string()];
    while r.len() < n {
        let mut s = String::new();
        for _ in 0..rng.range(1, 5) {
            s.push_str(rng.pick(&alphabet));
        }
        if rng.chance(1, 20) {
            s = s.repeat(rng.range(1, 40));
        }
        r.push(s);
    }
    r.sort();
    r.dedup();
    r
}
fn numbers(rng: &mut Rng, n: usize) -> Vec<u64> {
    let mut r: Vec<u64> = vec![0, 1, 255, 256, 257, 65535, 65536, u32::MAX as u64, 1 << 32, 1 << 63, u64::MAX, u64::MAX - 1];
    while r.len() < n {
        let b = rng.below(64);
        r.push(rng.next() >> b);
    }
    r
}

/// every way to read the table gives what the map contains
fn check<K: Key, V: Val>(t: &DiskMap<K, V>, m: &BTreeMap<K, V>, pool: &[K], rng: &mut Rng) -> Result<(), String> {
    for k in pool {
        eq(ok(t.get(k), "get")?.map(|v| v.into_owned()), m.get(k).cloned(), &format!("get({k:?})"))?;
        eq(ok(t.contains_key(k), "contains_key")?, m.contains_key(k), &format!("contains_key({k:?})"))?;
    }
    eq(ok(t.is_empty(), "is_empty")?, m.is_empty(), "is_empty()")?;
    let want: Vec<(K, V)> = m.iter().map(|(k, v)| (k.clone(), v.clone())).collect();
    let it = ok(t.iter(), "iter")?;
    eq(ok(it.take(want.len() + 3).collect::<Result<Vec<_>, _>>(), "iter")?, want, "iter()")?;
    for _ in 0..8 {
        let (mut a, mut b) = (rng.pick(pool).clone(), rng.pick(pool).clone());
        if a > b {
            std::mem::swap(&mut a, &mut b);
        }
        let lo = match rng.below(3) { 0 => Bound::Included(a.clone()), 1 => Bound::Excluded(a.clone()), _ => Bound::Unbounded };
        let mut hi = match rng.below(3) { 0 => Bound::Included(b.clone()), 1 => Bound::Excluded(b.clone()), _ => Bound::Unbounded };
        // bounds which BTreeMap::range does not allow
        if a == b && matches!(lo, Bound::Excluded(_)) && matches!(hi, Bound::Excluded(_)) {
            hi = Bound::Unbounded;
        }
        let want: Vec<(K, V)> = m.range((lo.clone(), hi.clone())).map(|(k, v)| (k.clone(), v.clone())).collect();
        let got = ok(t.range((lo.clone(), hi.clone())).take(want.len() + 3).collect::<Result<Vec<_>, _>>(), "range")?;
        eq(got, want, &format!("range({lo:?}, {hi:?})"))?;
    }
    Ok(())
}

fn history<K: Key, V: Val>(
    rng: &mut Rng,
    tr: &mut Trace,
    pool: Vec<K>,
    mut value: impl FnMut(&mut Rng) -> V,
    config: impl Fn() -> BtreeConfig,
    steps: usize,
) -> Result<(), String> {
    let dir = ok(tempfile::tempdir(), "tempdir")?;
    let n = *rng.pick(&[1usize, 2, 3, 5, 8, 20, 10_000]);
    let cache = *rng.pick(&[1usize, 4096, 8 << 20]);
    tr.note("maximum items in memory", &n);
    let ev = || EvictionStrategy::MaximumItems(n);
    let mut t: DiskMap<K, V> = if rng.chance(1, 2) {
        DiskMap::new_temporary(ev(), cache, config())
    } else {
        ok(DiskMap::new(None, ev(), cache, config()), "new")?
    };
    let mut m: BTreeMap<K, V> = BTreeMap::new();
    let mut files = 0;
    let every = rng.range(1, 6);
    for step in 0..steps {
        match rng.below(20) {
            0..=9 => {
                let (k, v) = (rng.pick(&pool).clone(), value(rng));
                tr.note("insert", &(&k, &v));
                ok(t.insert(k.clone(), v.clone()), "insert")?;
                m.insert(k, v);
            }
            10..=15 => {
                let k = rng.pick(&pool).clone();
                tr.note("remove", &k);
                eq(ok(t.remove(&k), "remove")?, m.remove(&k), &format!("remove({k:?})"))?;
            }
            16 | 17 => {
                tr.note("compact", &());
                ok(t.compact(), "compact")?;
            }
            18 => {
                let p = dir.path().join(format!("sub{files}")).join("table.bin");
                files += 1;
                tr.note("write_to and reopen", &());
                ok(t.write_to(&p), "write_to")?;
                // writing does not change the table
                check(&t, &m, &pool, rng)?;
                t = ok(DiskMap::new(Some(&p), ev(), cache, config()), "new")?;
            }
            _ => {
                if rng.chance(1, 3) {
                    tr.note("clear", &());
                    t.clear();
                    m.clear();
                } else {
                    let missing = dir.path().join("missing.bin");
                    if m.is_empty() {
                        tr.note("open a missing file", &());
                        t = ok(DiskMap::new(Some(&missing), ev(), cache, config()), "new")?;
                    }
                }
            }
        }
        if step % every == 0 {
            check(&t, &m, &pool, rng)?;
        }
    }
    tr.trivial_if(m.is_empty());
    check(&t, &m, &pool, rng)
}

fn main() {
    let mut c = Ctx::from_args();
    c.rule("random histories of insert, remove, compact, clear, write_to + reopen with different numbers of items in memory; get, contains_key, is_empty, iter and ranges with all kinds of bounds compared with a BTreeMap; non-trivial: entries left at the end");
    c.run("numbers", 150, |rng, _, tr| {
        let pool = numbers(rng, 20);
        history::<u64, String>(rng, tr, pool, |r| texts(r, 3).pop().unwrap(), BtreeConfig::default, 60)
    });
    c.run("texts", 150, |rng, _, tr| {
        let pool = texts(rng, 20);
        history::<String, u64>(rng, tr, pool, |r| r.next(), || BtreeConfig::default().max_key_size(8).order(2), 60)
    });
    c.run("edges", 150, |rng, _, tr| {
        let x = numbers(rng, 14);
        let pool = (0..24).map(|_| Edge { source: *rng.pick(&x), target: *rng.pick(&x) }).collect();
        history::<Edge, bool>(rng, tr, pool, |r| r.chance(1, 2), || BtreeConfig::default().fixed_key_size(16).max_value_size(2), 60)
    });
    c.run("bytes", 150, |rng, _, tr| {
        let pool = texts(rng, 20).into_iter().map(|s| { let mut b = s.into_bytes(); if b.len() > 1 { b.push(255) } ByteBuf::from(b) }).collect();
        history::<ByteBuf, Vec<u64>>(rng, tr, pool, |r| (0..r.below(5)).map(|x| x as u64).collect(), || BtreeConfig::default().max_value_size(4), 60)
    });
    c.run("small", 40, |rng, _, tr| {
        let pool = (0..=255u8).collect();
        history::<u8, bool>(rng, tr, pool, |r| r.chance(1, 2), || BtreeConfig::default().fixed_key_size(1).max_value_size(2).order(3), 120)
    });
    // more entries than fit into one block of the file
    c.run_exact("large", 2, |rng, i, tr| {
        let n = 6000u64;
        let mut t: DiskMap<u64, String> = DiskMap::new_temporary(EvictionStrategy::MaximumItems(if i == 0 { 700 } else { 100_000 }), 4096, BtreeConfig::default());
        let mut m = BTreeMap::new();
        for k in 0..n {
            let k = (k * 7919) % 10_007;
            let v = format!("value {k} {}", rng.below(1000));
            ok(t.insert(k, v.clone()), "insert")?;
            m.insert(k, v);
            if k % 5 == 0 {
                let d = rng.below(10_007) as u64;
                eq(ok(t.remove(&d), "remove")?, m.remove(&d), "remove")?;
            }
        }
        tr.note("entries", &m.len());
        let dir = ok(tempfile::tempdir(), "tempdir")?;
        let p = dir.path().join("table.bin");
        ok(t.write_to(&p), "write_to")?;
        let mut pool: Vec<u64> = (0..200).map(|_| rng.below(10_010) as u64).collect();
        pool.push(u64::MAX);
        check(&t, &m, &pool, rng)?;
        let mut t: DiskMap<u64, String> = ok(DiskMap::new(Some(&p), EvictionStrategy::MaximumItems(300), 4096, BtreeConfig::default()), "new")?;
        check(&t, &m, &pool, rng)?;
        for _ in 0..400 {
            let k = *rng.pick(&pool);
            if rng.chance(1, 2) {
                eq(ok(t.remove(&k), "remove")?, m.remove(&k), "remove")?;
            } else {
                ok(t.insert(k, "new".to_string()), "insert")?;
                m.insert(k, "new".to_string());
            }
        }
        check(&t, &m, &pool, rng)
    });
    c.run_exact("empty-key", 1, |_, _, tr| {
        let dir = ok(tempfile::tempdir(), "tempdir")?;
        let p = dir.path().join("table.bin");
        let mut t: DiskMap<String, u64> = DiskMap::default();
        tr.note("insert", &"");
        ok(t.insert(String::new(), 1), "insert")?;
        ok(t.insert("a".to_string(), 2), "insert")?;
        ok(t.write_to(&p), "write_to")?;
        let t: DiskMap<String, u64> = ok(DiskMap::new(Some(&p), EvictionStrategy::default(), 4096, BtreeConfig::default()), "new")?;
        eq(ok(t.get(&String::new()), "get")?.map(|v| v.into_owned()), Some(1), "get of the empty key after write_to")?;
        eq(ok(t.get(&"a".to_string()), "get")?.map(|v| v.into_owned()), Some(2), "get(a)")
    });
    // iterating over a file with keys of another type ends with an error
    c.run("unreadable", 20, |rng, _, tr| {
        let dir = ok(tempfile::tempdir(), "tempdir")?;
        let p = dir.path().join("table.bin");
        let mut t: DiskMap<ByteBuf, bool> = DiskMap::default();
        for i in 0..rng.range(1, 4) {
            ok(t.insert(ByteBuf::from(vec![i as u8; 20]), true), "insert")?;
        }
        ok(t.write_to(&p), "write_to")?;
        let mut t: DiskMap<Edge, bool> = ok(DiskMap::new(Some(&p), EvictionStrategy::MaximumItems(3), 4096, BtreeConfig::default()), "new")?;
        let inserts = rng.range(0, 6);
        tr.note("entries inserted", &inserts);
        for i in 0..inserts {
            ok(t.insert(Edge { source: i as u64, target: 1 }, true), "insert")?;
        }
        let (tx, rx) = std::sync::mpsc::channel();
        std::thread::spawn(move || {
            let r = t.iter().map(|it| it.take(100).any(|e| e.is_err())).unwrap_or(true);
            let _ = tx.send(r);
        });
        match rx.recv_timeout(std::time::Duration::from_secs(20)) {
            Ok(r) => eq(r, true, "an error is reported"),
            Err(_) => Err("iterating over a table with unreadable entries does not end".to_string()),
        }
    });
    c.finish();
}
