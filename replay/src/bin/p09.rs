//! P09: byte keys round trip, are distinct and ordered.
use graphannis_core::serializer::{FixedSizeKeySerializer, KeySerializer, KeyVec};
use graphannis_core::types::Edge;
use replay::*;
use serde_bytes::ByteBuf;
use std::fmt::Debug;

fn round<T: KeySerializer + PartialEq + Debug + Clone>(vals: &[T]) -> Result<(), String> {
    for v in vals {
        let k = v.create_key();
        let p = T::parse_key(&k).map_err(|e| format!("parse_key({k:?}) of {v:?} failed: {e}"))?;
        eq(&p, v, &format!("parse_key(create_key({v:?}))"))?;
    }
    for a in vals {
        for b in vals {
            ensure!((a.create_key() == b.create_key()) == (a == b), "keys of {a:?} and {b:?} are {:?} and {:?}", a.create_key(), b.create_key());
        }
    }
    Ok(())
}
fn fixed<T: FixedSizeKeySerializer + Debug>(vals: &[T]) -> Result<(), String> {
    for v in vals {
        eq(v.create_key().len(), T::key_size(), &format!("length of the key of {v:?}"))?;
    }
    Ok(())
}
fn ordered<T: KeySerializer + Ord + Debug>(vals: &[T]) -> Result<(), String> {
    for a in vals {
        for b in vals {
            ensure!(a.create_key().as_slice().cmp(b.create_key().as_slice()) == a.cmp(b), "order of {a:?} and {b:?} differs from the order of the keys {:?} and {:?}", a.create_key(), b.create_key());
        }
    }
    Ok(())
}
fn bits(rng: &mut Rng, n: usize) -> Vec<u128> {
    let mut r: Vec<u128> = vec![0, 1, 127, 128, 255, 256, 257, 0x7fff, 0x8000, 0xffff, 0x10000, 0x7fff_ffff, 0x8000_0000, 0xffff_ffff, 1 << 32, 1 << 63, u64::MAX as u128, 1 << 64, 1 << 127, u128::MAX];
    while r.len() < n {
        let x = ((rng.next() as u128) << 64) | rng.next() as u128;
        r.push(x >> rng.below(128));
    }
    for i in 0..n / 3 {
        let x = r[i * 2];
        r.push(x ^ (1 << rng.below(128)));
    }
    r
}

fn main() {
    let mut c = Ctx::from_args();
    c.rule("boundary values and random values of every key type, all pairs of a group compared");
    c.run("numbers", 60, |rng, i, tr| {
        let b = bits(rng, 60);
        tr.note("values", &b);
        macro_rules! t { ($($k:expr => $t:ty, $u:expr;)*) => { match i % 10 { $($k => {
            let v: Vec<$t> = b.iter().map(|x| *x as $t).collect();
            round(&v)?; fixed(&v)?; if $u { ordered(&v)?; }
        })* _ => {} } } }
        t! { 0 => u8, true; 1 => u16, true; 2 => u32, true; 3 => u64, true; 4 => u128, true; 5 => i8, false; 6 => i16, false; 7 => i32, false; 8 => i64, false; 9 => i128, false; }
        let v: Vec<usize> = b.iter().map(|x| *x as usize).collect();
        round(&v)?;
        ordered(&v)?;
        for x in &v {
            eq(x.create_key().len(), std::mem::size_of::<usize>(), "length of a usize key")?;
        }
        Ok(())
    });
    c.run("all-bytes", 1, |_rng, _i, _tr| {
        let v: Vec<u8> = (0..=255).collect();
        round(&v)?; fixed(&v)?; ordered(&v)?;
        let v: Vec<i8> = (-128..=127).collect();
        round(&v)?; fixed(&v)
    });
    c.run("edges", 40, |rng, _i, tr| {
        let b = bits(rng, 40);
        let mut v: Vec<Edge> = Vec::new();
        for x in &b {
            v.push(Edge { source: *x as u64, target: *rng.pick(&b) as u64 });
            v.push(Edge { source: *rng.pick(&b) as u64, target: *x as u64 });
            v.push(Edge { source: *x as u64, target: *x as u64 });
        }
        tr.note("edges", &v);
        round(&v)?; fixed(&v)?; ordered(&v)?;
        for e in &v {
            eq(e.inverse().inverse(), e.clone(), "inverse twice")?;
            eq(Edge::from((e.source, e.target)), e.clone(), "edge from a pair")?;
        }
        Ok(())
    });
    c.run("texts", 60, |rng, _i, tr| {
        let parts = ["a", "b", "\u{0}", "ä", "\u{10FFFF}", "\u{7f}", " ", "z", "\u{800}", "\u{FFFD}", "\u{1}"];
        let mut v: Vec<String> = vec!["".into(), "\u{0}".into(), "\u{0}\u{0}".into(), "x".repeat(32), "x".repeat(33), "x".repeat(100)];
        while v.len() < 40 {
            let mut s = String::new();
            for _ in 0..rng.range(0, 40) {
                s.push_str(rng.pick(&parts[..]));
            }
            v.push(s);
        }
        tr.note("texts", &v);
        round(&v)?;
        ordered(&v)?;
        let y: Vec<Vec<u8>> = v.iter().map(|s| { let mut b = s.clone().into_bytes(); b.push(rng.next() as u8); b }).collect();
        round(&y)?;
        ordered(&y)?;
        let z: Vec<ByteBuf> = y.iter().map(|b| ByteBuf::from(b.clone())).collect();
        round(&z)?;
        ordered(&z)?;
        let k: Vec<KeyVec> = y.iter().map(|b| KeyVec::from_slice(b)).collect();
        round(&k)?;
        ordered(&k)
    });
    c.finish();
}
