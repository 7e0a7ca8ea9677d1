//! P11: corpora on disk: reopened after every kind of save, and after the process was stopped between two
//! file system calls (children of this process which end themselves at a chosen call).
use graphannis::AnnotationGraph;
use graphannis::corpusstorage::{QueryLanguage, ResultOrder, SearchQuery};
use graphannis::update::{GraphUpdate, UpdateEvent};
use replay::upd::*;
use replay::*;
use std::io::Read;
use std::path::{Path, PathBuf};

/// Counts the calls which change files; the process ends itself at the chosen one. These functions take
/// the place of the ones of the C library, which are called by their number.
mod stop {
    use std::ffi::{c_char, c_int, c_long, c_void};
    use std::sync::atomic::{AtomicI64, Ordering};
    pub static LEFT: AtomicI64 = AtomicI64::new(i64::MAX);
    /// the call which fails instead of ending the process
    pub static FAIL: AtomicI64 = AtomicI64::new(-1);
    pub static DONE: AtomicI64 = AtomicI64::new(0);
    unsafe extern "C" {
        fn syscall(n: c_long, ...) -> c_long;
        fn __errno_location() -> *mut c_int;
    }
    pub fn raw_write(fd: c_int, b: &[u8]) -> isize {
        unsafe { syscall(1, fd, b.as_ptr(), b.len()) as isize }
    }
    fn last() -> bool {
        DONE.fetch_add(1, Ordering::SeqCst);
        LEFT.fetch_sub(1, Ordering::SeqCst) <= 1
    }
    /// no space left on device
    fn fails() -> bool {
        let f = DONE.load(Ordering::SeqCst) == FAIL.load(Ordering::SeqCst);
        if f { unsafe { *__errno_location() = 28 } }
        f
    }
    fn end() -> ! {
        unsafe { syscall(231, 42 as c_int) };
        std::process::abort()
    }
    #[unsafe(no_mangle)]
    pub unsafe extern "C" fn rename(a: *const c_char, b: *const c_char) -> c_int {
        if last() { end() }
        if fails() { return -1 }
        unsafe { syscall(82, a, b) as c_int }
    }
    #[unsafe(no_mangle)]
    pub unsafe extern "C" fn mkdir(a: *const c_char, m: u32) -> c_int {
        if last() { end() }
        if fails() { return -1 }
        unsafe { syscall(83, a, m) as c_int }
    }
    #[unsafe(no_mangle)]
    pub unsafe extern "C" fn rmdir(a: *const c_char) -> c_int {
        if last() { end() }
        if fails() { return -1 }
        unsafe { syscall(84, a) as c_int }
    }
    #[unsafe(no_mangle)]
    pub unsafe extern "C" fn unlink(a: *const c_char) -> c_int {
        if last() { end() }
        if fails() { return -1 }
        unsafe { syscall(87, a) as c_int }
    }
    #[unsafe(no_mangle)]
    pub unsafe extern "C" fn unlinkat(d: c_int, a: *const c_char, f: c_int) -> c_int {
        if last() { end() }
        if fails() { return -1 }
        unsafe { syscall(263, d, a, f) as c_int }
    }
    /// a stopped write can be incomplete
    #[unsafe(no_mangle)]
    pub unsafe extern "C" fn write(fd: c_int, p: *const c_void, n: usize) -> isize {
        if last() {
            unsafe { syscall(1, fd, p, n / 2) };
            end()
        }
        if fails() { return -1 }
        unsafe { syscall(1, fd, p, n) as isize }
    }
    #[unsafe(no_mangle)]
    pub unsafe extern "C" fn open64(p: *const c_char, flags: c_int, mode: u32) -> c_int {
        if flags & 3 != 0 && last() { end() }
        unsafe { syscall(257, -100 as c_int, p, flags, mode) as c_int }
    }
}

#[derive(Clone, Debug)]
enum Step {
    Update(Vec<UpdateEvent>, bool),
    Sync,
    Reopen,
    Optimize,
}
#[derive(Clone)]
struct Plan {
    disk: bool,
    steps: Vec<Step>,
}
fn plan(seed: u64, n: usize) -> Plan {
    let mut rng = Rng::new(seed);
    let nm = names(&mut rng);
    let disk = rng.chance(1, 3);
    let len = rng.range(3, 40);
    let first = if rng.chance(1, 3) { chain(&mut rng) } else { events(&mut rng, &nm, len) };
    let mut steps = vec![Step::Update(first, rng.chance(1, 3))];
    let mut fresh = 100;
    while steps.len() < n {
        let s = match rng.below(10) {
            0..=4 => Step::Update((0..rng.range(1, 6)).map(|_| event(&mut rng, &nm, &mut fresh)).collect(), rng.chance(1, 3)),
            5..=7 => Step::Sync,
            8 => Step::Reopen,
            _ => Step::Optimize,
        };
        steps.push(s);
    }
    Plan { disk, steps }
}
/// documents whose part-of edges form paths and whose tokens form a chain
fn chain(rng: &mut Rng) -> Vec<UpdateEvent> {
    let mut r = vec![corpus::add_node("c", "corpus"), corpus::add_node("c/d", "corpus"), corpus::add_edge("c/d", "c", "annis", "PartOf", "")];
    let k = rng.range(3, 14);
    for i in 0..k {
        let t = format!("c/d#t{i}");
        r.push(corpus::add_node(&t, "node"));
        r.push(corpus::add_label(&t, "annis", "tok", &format!("w{i}")));
        r.push(corpus::add_edge(&t, "c/d", "annis", "PartOf", ""));
        if i > 0 {
            r.push(corpus::add_edge(&format!("c/d#t{}", i - 1), &t, "annis", "Ordering", ""));
        }
    }
    r
}
fn open(dir: &Path) -> Result<AnnotationGraph, String> {
    let mut g = ok(AnnotationGraph::new(false), "new graph")?;
    ok(g.open(dir), "opening the graph")?;
    Ok(g)
}
fn run_step(g: &mut AnnotationGraph, dir: &Path, disk: bool, s: &Step) -> Result<(), String> {
    match s {
        Step::Update(ev, keep) => {
            let mut u = update(ev)?;
            if *keep { ok(g.apply_update_keep_statistics(&mut u, |_| {}), "apply_update_keep_statistics") } else { ok(g.apply_update(&mut u, |_| {}), "apply_update") }
        }
        Step::Sync => ok(g.background_sync_wal_updates(), "background_sync_wal_updates"),
        Step::Reopen => {
            *g = open(dir)?;
            Ok(())
        }
        Step::Optimize => ok(g.optimize_impl(disk), "optimize_impl"),
    }
}
/// `p11 --child DIR SEED STEPS FIRST STOP`: run the steps of a plan, report each finished one
fn child(a: &[String]) -> ! {
    let dir = PathBuf::from(&a[0]);
    let n = |i: usize| a[i].parse::<u64>().unwrap();
    let p = plan(n(1), n(2) as usize);
    let stop = n(4);
    if n(5) > 0 {
        return child_with_error(&dir, &p, n(5) as i64);
    }
    stop::LEFT.store(if stop == 0 { i64::MAX } else { stop as i64 }, std::sync::atomic::Ordering::SeqCst);
    let r = (|| -> Result<(), String> {
        let mut g = open(&dir)?;
        for (i, s) in p.steps.iter().enumerate().skip(n(3) as usize) {
            run_step(&mut g, &dir, p.disk, s)?;
            stop::raw_write(1, format!("{}\n", i + 1).as_bytes());
        }
        Ok(())
    })();
    if let Err(e) = r {
        stop::raw_write(1, format!("E {e}\n").as_bytes());
    }
    stop::raw_write(1, format!("N {}\n", stop::DONE.load(std::sync::atomic::Ordering::SeqCst)).as_bytes());
    std::process::exit(0)
}
/// one call fails: report the steps with an error and continue
fn child_with_error(dir: &Path, p: &Plan, at: i64) -> ! {
    stop::FAIL.store(at, std::sync::atomic::Ordering::SeqCst);
    let mut g = match open(dir) {
        Ok(g) => g,
        Err(_) => open(dir).unwrap(),
    };
    for (i, s) in p.steps.iter().enumerate() {
        match run_step(&mut g, dir, p.disk, s) {
            Ok(()) => stop::raw_write(1, format!("{}\n", i + 1).as_bytes()),
            Err(e) => {
                stop::raw_write(1, format!("F {i} {}\n", e.replace('\n', " ")).as_bytes());
                if let Step::Reopen = s {
                    g = open(dir).unwrap();
                }
                0
            }
        };
    }
    stop::raw_write(1, b"END\n");
    std::process::exit(0)
}
/// (finished steps, number of calls or None when the process was stopped)
fn run_child(tmp: &Path, dir: &Path, seed: u64, steps: usize, first: usize, stop: u64) -> Result<(usize, Option<u64>), String> {
    let mut c = std::process::Command::new(std::env::current_exe().unwrap())
        .arg("--child")
        .arg(dir)
        .args([seed.to_string(), steps.to_string(), first.to_string(), stop.to_string(), "0".to_string()])
        .env("TMPDIR", tmp)
        .env("RAYON_NUM_THREADS", "2")
        .stdout(std::process::Stdio::piped())
        .stderr(std::process::Stdio::null())
        .spawn()
        .map_err(|e| e.to_string())?;
    let mut out = String::new();
    c.stdout.take().unwrap().read_to_string(&mut out).map_err(|e| e.to_string())?;
    let st = c.wait().map_err(|e| e.to_string())?;
    let mut done = first;
    for l in out.lines() {
        if let Some(e) = l.strip_prefix("E ") {
            return Err(format!("step {} (0 is the first) after {done} finished steps: {e}", done));
        }
        if let Some(n) = l.strip_prefix("N ") {
            return Ok((done, n.parse().ok()));
        }
        done = l.parse().unwrap_or(done);
    }
    if st.code() == Some(42) { Ok((done, None)) } else { Err(format!("the process ended with {st} after {done} steps")) }
}
fn copy_dir(a: &Path, b: &Path) {
    std::fs::create_dir_all(b).unwrap();
    for e in std::fs::read_dir(a).unwrap() {
        let e = e.unwrap();
        let t = b.join(e.file_name());
        if e.path().is_dir() { copy_dir(&e.path(), &t) } else { std::fs::copy(e.path(), t).unwrap(); }
    }
}
fn apply(w: &World, s: &Step) -> World {
    let mut w = w.clone();
    if let Step::Update(ev, _) = s {
        for e in ev {
            w.apply(e);
        }
    }
    w
}
fn scratch() -> tempfile::TempDir {
    tempfile::Builder::new().prefix("verif-p11-").tempdir().unwrap()
}

fn main() {
    replay::confine::confine();
    let args: Vec<String> = std::env::args().collect();
    if args.get(1).map(String::as_str) == Some("--child") {
        child(&args[2..]);
    }
    let mut c = Ctx::from_args();
    let base = c.seed;
    c.rule("histories of updates, background writes, reopening and optimising in memory and on disk, in which the process ends at a random call that changes files (with an incomplete write), up to three times; the graph opened again has to contain every reported update, and either all or nothing of the one under way");
    c.run("stopped", 70, |_, i, tr| {
        let tmp = scratch();
        let seed = fnv(&format!("stopped {base} {i}"));
        let mut rng = Rng::new(seed ^ 77);
        let n = rng.range(3, 8);
        let p = plan(seed, n);
        tr.note("on disk", &p.disk);
        tr.note("steps", &p.steps);
        let dir = tmp.path().join("corpus");
        let t = tmp.path().join("t");
        std::fs::create_dir_all(&t).unwrap();
        {
            let mut g = ok(AnnotationGraph::with_default_graphstorages(p.disk), "new graph")?;
            ok(g.persist_to(&dir), "persist_to")?;
        }
        // how many calls does the history have
        let probe = tmp.path().join("probe");
        copy_dir(&dir, &probe);
        let (_, calls) = run_child(&t, &probe, seed, n, 0, 0)?;
        let calls = calls.unwrap_or(1);
        tr.note("calls", &calls);
        let mut w = World::default();
        let mut first = 0;
        for round in 0..3 {
            let stop = 1 + rng.below(calls as usize / (round + 1) + 1) as u64;
            let (done, end) = run_child(&t, &dir, seed, n, first, stop)?;
            for s in &p.steps[first..done] {
                w = apply(&w, s);
            }
            tr.note("stopped at call, finished steps", &(stop, done));
            let look = tmp.path().join(format!("look{round}"));
            copy_dir(&dir, &look);
            let mut g = open(&look)?;
            let what = format!("opened after the process ended in step {done} (call {stop})");
            let mut next = done;
            if let Err(e) = compare(&what, &mut g, &w) {
                if done >= n {
                    return Err(e);
                }
                let w2 = apply(&w, &p.steps[done]);
                if compare(&what, &mut g, &w2).is_err() {
                    return Err(e);
                }
                w = w2;
                next = done + 1;
            }
            // opening it a second time shows the same
            drop(g);
            compare("opened a second time", &mut open(&look)?, &w)?;
            first = next;
            if end.is_some() || first >= n {
                break;
            }
        }
        // the rest of the history
        let (done, _) = run_child(&t, &dir, seed, n, first, 0)?;
        eq(done, n, "finished steps")?;
        for s in &p.steps[first..] {
            w = apply(&w, s);
        }
        compare("at the end of the history", &mut open(&dir)?, &w)
    });
    c.rule("the same histories in which one call that changes files fails: a failed update has no effect, all others are still there after opening the graph again");
    c.run("errors", 70, |_, i, tr| {
        let tmp = scratch();
        let seed = fnv(&format!("errors {base} {i}"));
        let mut rng = Rng::new(seed ^ 78);
        let n = rng.range(3, 8);
        let p = plan(seed, n);
        tr.note("on disk", &p.disk);
        tr.note("steps", &p.steps);
        let (dir, t, probe) = (tmp.path().join("corpus"), tmp.path().join("t"), tmp.path().join("probe"));
        std::fs::create_dir_all(&t).unwrap();
        {
            let mut g = ok(AnnotationGraph::with_default_graphstorages(p.disk), "new graph")?;
            ok(g.persist_to(&dir), "persist_to")?;
        }
        copy_dir(&dir, &probe);
        let calls = run_child(&t, &probe, seed, n, 0, 0)?.1.unwrap_or(1);
        let at = 1 + rng.below(calls as usize);
        tr.note("failing call", &at);
        let o = std::process::Command::new(std::env::current_exe().unwrap())
            .arg("--child").arg(&dir)
            .args([seed.to_string(), n.to_string(), "0".to_string(), "0".to_string(), at.to_string()])
            .env("TMPDIR", &t).env("RAYON_NUM_THREADS", "2")
            .output().map_err(|e| e.to_string())?;
        let out = String::from_utf8_lossy(&o.stdout).to_string();
        tr.note("finished and failed steps", &out);
        ensure!(out.ends_with("END\n"), "the process ended with {} after {out:?}: {}", o.status, String::from_utf8_lossy(&o.stderr));
        let mut w = World::default();
        for (j, s) in p.steps.iter().enumerate() {
            if !out.lines().any(|l| l.starts_with(&format!("F {j} "))) {
                w = apply(&w, s);
            }
        }
        compare("opened after a failing call", &mut open(&dir)?, &w)?;
        compare("opened a second time", &mut open(&dir)?, &w)
    });
    c.rule("the same histories without stopping; saved to, loaded from and moved between several locations");
    c.run("saved", 90, |rng, i, tr| {
        let tmp = scratch();
        let seed = fnv(&format!("saved {base} {i}"));
        let n = rng.range(2, 8);
        let p = plan(seed, n);
        tr.note("on disk", &p.disk);
        let mut dir = tmp.path().join("corpus");
        let mut g = ok(AnnotationGraph::with_default_graphstorages(p.disk), "new graph")?;
        ok(g.persist_to(&dir), "persist_to")?;
        let mut w = World::default();
        for (j, s) in p.steps.iter().enumerate() {
            tr.note("step", s);
            run_step(&mut g, &dir, p.disk, s)?;
            w = apply(&w, s);
            if rng.chance(1, 2) {
                let other = tmp.path().join(format!("o{j}"));
                let k = rng.below(8);
                tr.note("then", &["opened again", "saved to another location", "moved to another location", "written in the background and opened", "imported", "saved to its own location", "moved to its own location", "opened and saved to its own location"][k]);
                match k {
                    0 => g = open(&dir)?,
                    1 => {
                        ok(g.save_to(&other), "save_to")?;
                        compare("saved to another location", &mut open(&other)?, &w)?;
                    }
                    2 => {
                        ok(g.persist_to(&other), "persist_to")?;
                        dir = other;
                        g = open(&dir)?;
                    }
                    3 => {
                        g = open(&dir)?;
                        ok(g.background_sync_wal_updates(), "background_sync_wal_updates")?;
                        g = open(&dir)?;
                    }
                    4 => {
                        let mut h = ok(AnnotationGraph::new(false), "new graph")?;
                        ok(h.import(&dir), "import")?;
                        compare("imported", &mut h, &w)?;
                        // updates of an imported graph do not change the original
                        ok(h.apply_update(&mut update(&[corpus::add_node("only here", "node")])?, |_| {}), "apply_update")?;
                        ok(h.background_sync_wal_updates(), "background_sync_wal_updates")?;
                        compare("original of an imported graph", &mut open(&dir)?, &w)?;
                    }
                    5 => {
                        ok(g.save_to(&dir), "save_to")?;
                        compare("saved to its own location", &mut g, &w)?;
                        g = open(&dir)?;
                    }
                    7 => {
                        g = open(&dir)?;
                        ok(g.save_to(&dir), "save_to")?;
                        g = open(&dir)?;
                    }
                    _ => {
                        ok(g.persist_to(&dir), "persist_to")?;
                        g = open(&dir)?;
                    }
                }
                if rng.chance(2, 3) {
                    compare("after saving or loading", &mut g, &w)?;
                }
            }
        }
        compare("at the end", &mut g, &w)?;
        compare("opened at the end", &mut open(&dir)?, &w)
    });
    c.rule("several updates of a corpus storage one directly after the other, with unloading, reopening and deletion while the background writes are pending");
    c.run("storage", 40, |rng, i, tr| {
        let tmp = scratch();
        let nm = names(rng);
        let disk = i % 3 == 2;
        let mut cs = Some(corpus::storage(tmp.path(), false)?);
        let mut w = World::default();
        ok(cs.as_ref().unwrap().create_empty_corpus("a/b", disk), "create_empty_corpus")?;
        let mut fresh = 0;
        let mut log: Vec<String> = vec![];
        for j in 0..rng.range(2, 9) {
            let s = cs.as_ref().unwrap();
            match if j == 0 { 0 } else { rng.below(9) } {
                0..=4 => {
                    let ev: Vec<UpdateEvent> = if j == 0 { events(rng, &nm, 20) } else { (0..rng.range(1, 5)).map(|_| event(rng, &nm, &mut fresh)).collect() };
                    log.push(format!("update {ev:?}"));
                    ok(s.apply_update("a/b", &mut update(&ev)?), "apply_update")?;
                    w = apply(&w, &Step::Update(ev, false));
                }
                5 | 6 => {
                    log.push("unload".into());
                    ok(s.unload("a/b"), "unload")?;
                }
                7 => {
                    log.push("close and open".into());
                    drop(cs.take());
                    cs = Some(corpus::storage(tmp.path(), false)?);
                }
                _ => {
                    log.push("delete and create".into());
                    ok(s.delete("a/b"), "delete")?;
                    ok(s.create_empty_corpus("a/b", disk), "create_empty_corpus")?;
                    w = World::default();
                }
            }
            tr.note("steps", &log);
        }
        drop(cs.take());
        let dirs: Vec<PathBuf> = std::fs::read_dir(tmp.path()).unwrap().map(|e| e.unwrap().path()).filter(|p| p.is_dir()).collect();
        eq(dirs.len(), 1, "folders of one corpus")?;
        compare("after closing the storage", &mut open(&dirs[0])?, &w)
    });
    c.rule("searches on a corpus before and after closing and opening it, optimising it and reopening it again");
    c.run("searches", 24, |rng, i, tr| {
        let tmp = scratch();
        let co = corpus::random(rng, "c", &corpus::Opts::default());
        tr.note("events", &co.events.len());
        let mut s = corpus::storage(tmp.path(), false)?;
        let disk = i % 2 == 1;
        ok(s.create_empty_corpus("c", disk), "create_empty_corpus")?;
        ok(s.apply_update("c", &mut co.update()), "apply_update")?;
        let qs = ["tok", "node", "tok . tok", "node _=_ node", "node _i_ tok", "node > node", "node ->dep node", "tok .2,4 tok", "node _l_ node", "annis:node_name", "node @ node", "node >* node", "node _o_ node", "pos", "lemma _=_ pos"];
        let mut all: Option<Vec<Vec<String>>> = None;
        for round in 0..4 {
            let mut res = vec![];
            for q in qs {
                let sq = SearchQuery { corpus_names: &["c"], query: q, query_language: QueryLanguage::AQL, timeout: None };
                let f = ok(s.find(sq.clone(), 0, None, ResultOrder::Normal), q)?;
                eq(ok(s.count(sq), q)?, f.len() as u64, &format!("count of {q:?}"))?;
                res.push(f);
            }
            if let Some(a) = &all {
                for (k, q) in qs.iter().enumerate() {
                    let w = ["", "opening again", "optimising", "optimising and opening again"][round];
                    eq(&res[k], &a[k], &format!("results of {q:?} after {w}"))?;
                }
            } else {
                all = Some(res);
            }
            match round {
                0 | 2 => {
                    drop(s);
                    s = corpus::storage(tmp.path(), false)?;
                }
                // TODO-P12 1 => ok(s.reoptimize_implementation("c", disk), "reoptimize_implementation")?,
                _ => {}
            }
        }
        Ok(())
    });
    c.rule("lists of changes written to and read from bytes, and extended after being read");
    c.run("lists", 120, |rng, _, tr| {
        let nm = names(rng);
        let n = rng.range(0, 40);
        let mut ev = events(rng, &nm, n);
        if rng.chance(1, 5) { ev.clear(); }
        if rng.chance(1, 10) { ev.push(corpus::add_label("x", "ns", "long", &"äx".repeat(rng.range(1, 70000)))); }
        tr.note("number of events", &ev.len());
        let mut u = update(&[])?;
        let mut sofar = vec![];
        let check = |u: &GraphUpdate, want: &[UpdateEvent], what: &str| -> Result<(), String> {
            let mut got = vec![];
            let mut last = 0;
            for e in ok(u.iter(), "iter")? {
                let (id, e) = ok(e, "event")?;
                ensure!(id > last, "{what}: number {id} after {last}");
                last = id;
                got.push(e);
            }
            eq(got.len(), want.len(), &format!("{what}: number of events"))?;
            eq(ok(u.len(), "len")?, want.len(), &format!("{what}: len"))?;
            eq(ok(u.is_empty(), "is_empty")?, want.is_empty(), &format!("{what}: is_empty"))?;
            for (k, (a, b)) in got.iter().zip(want).enumerate() {
                ensure!(a == b, "{what}: event {k}");
            }
            Ok(())
        };
        let mut steps = vec![];
        for e in &ev {
            ok(u.add_event(e.clone()), "add_event")?;
            sofar.push(e.clone());
            if rng.chance(1, 6) {
                if rng.chance(1, 2) {
                    steps.push((sofar.len(), "read"));
                    tr.note("in between", &steps);
                    check(&u, &sofar, "in between")?;
                } else {
                    steps.push((sofar.len(), "written and read"));
                    tr.note("in between", &steps);
                    let b = ok(bincode::serialize(&u), "serialize")?;
                    u = ok(bincode::deserialize(&b), "deserialize")?;
                }
            }
        }
        check(&u, &sofar, "at the end")?;
        let b = ok(bincode::serialize(&u), "serialize")?;
        let v: GraphUpdate = ok(bincode::deserialize(&b), "deserialize")?;
        check(&v, &sofar, "read again")?;
        let j = ok(serde_json::to_string(&u), "serialize")?;
        let v: GraphUpdate = ok(serde_json::from_str(&j), "deserialize")?;
        check(&v, &sofar, "read again from JSON")
    });
    c.finish();
}
