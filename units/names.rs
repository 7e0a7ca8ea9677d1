// Verus unit: encoded names are reversible (core/src/util/mod.rs, core/src/graph/mod.rs, graphannis/src/annis/db/corpusstorage.rs)
#![allow(unused)]
use vstd::prelude::*;
verus! {
global size_of usize == 8;
pub enum GraphAnnisCoreError { Other(u64) }
pub type Result<T> = std::result::Result<T, GraphAnnisCoreError>;
//@include textlib.inc

// ---- qualified names ------------------------------------------------------------------------------------
//@inlined find with_capacity len utf8_percent_encode into is_empty push_str
//@item src=core/src/util/mod.rs item="const QNAME_ENCODE_SET"
//@rewrite const (\w+): &AsciiSet = &CONTROLS => fn ${1}() -> (r: AsciiSet) ensures qname_set(r@) { controls()
//@rewrite ;\s*$ => }

/// '%' and ':' are escaped
pub open spec fn qname_set(s: Set<u8>) -> bool { s.contains(37) && s.contains(58) }
pub open spec fn qname(ns: Seq<char>, name: Seq<char>, set: Set<u8>) -> Seq<char> {
    if ns.len() == 0 { enc(name, set) } else { enc(ns, set) + "::"@ + enc(name, set) }
}
#[verifier::external_body]
pub fn find_sep(s: &str) -> (r: Option<usize>)
    ensures r matches Some(p) ==> exists|k: int| #[trigger] first_sep(s@, k) && utf8(s@.take(k)).len() == p && p + 2 <= usize::MAX, r is None ==> no_sep(s@),
{ unimplemented!() }
pub open spec fn boundary(s: Seq<char>, p: int, k: int) -> bool { 0 <= k <= s.len() && utf8(s.take(k)).len() == p }
#[verifier::external_body]
pub fn prefix(s: &str, p: usize) -> (r: &str)
    requires exists|k: int| #[trigger] boundary(s@, p as int, k), ensures forall|k: int| #[trigger] boundary(s@, p as int, k) ==> r@ == s@.take(k),
{ unimplemented!() }
#[verifier::external_body]
pub fn suffix(s: &str, p: usize) -> (r: &str)
    requires exists|k: int| #[trigger] boundary(s@, p as int, k), ensures forall|k: int| #[trigger] boundary(s@, p as int, k) ==> r@ == s@.skip(k),
{ unimplemented!() }
#[verifier::external_body]
pub fn empty(s: &str) -> (r: bool) ensures r == (s@.len() == 0) { unimplemented!() }
#[verifier::external_body]
pub fn text_new() -> (r: String) ensures r@.len() == 0 { unimplemented!() }
#[verifier::external_body]
pub fn text_push(t: &mut String, s: &str) ensures final(t)@ == old(t)@ + s@ { unimplemented!() }

//@fn src=core/src/util/mod.rs item=join_qname
//@rewrite String::with_capacity\([^;]*\); => text_new();
//@rewrite ns\.is_empty\(\) => empty(ns)
//@rewrite : Cow<str> = utf8_percent_encode\((\w+), QNAME_ENCODE_SET\)\.into\(\) => : String = percent_encode(${1}, &encode_set)
//@rewrite (\w+)\.push_str\(&(\w+)\) => text_push(&mut ${1}, ${2}.as_str())
//@rewrite (\w+)\.push_str\("::"\) => text_push(&mut ${1}, "::")
//@at fn_start
let encode_set = QNAME_ENCODE_SET();
//@at fn_end
proof { assert(result@ =~= qname(ns@, name@, encode_set@)); }
//@spec
ensures exists|s: Set<u8>| qname_set(s) && ret@ == #[trigger] qname(ns@, name@, s),
//@end

//@fn src=core/src/util/mod.rs item=split_qname
//@rewrite qname\.find\("::"\) => find_sep(qname)
//@rewrite &qname\[\.\.(\w+)\] => prefix(qname, ${1})
//@rewrite &qname\[([^;\]]*)\.\.\] => suffix(qname, ${1})
//@at? after_call find 0
proof {
    reveal_strlit("::");
    if sep_pos is Some {
        let k = choose|k: int| #[trigger] first_sep(qname@, k) && utf8(qname@.take(k)).len() == sep_pos->0;
        lemma_after_sep(qname@, k);
        assert(boundary(qname@, sep_pos->0 as int, k));
        assert(boundary(qname@, sep_pos->0 + 2, k + 2));
    }
}
//@spec
ensures
    no_sep(qname@) ==> ret.0 is None && ret.1@ == qname@,
    forall|k: int| #[trigger] first_sep(qname@, k) ==> ret.0 is Some && ret.0->0@ == qname@.take(k) && ret.1@ == qname@.skip(k + 2),
//@end

pub proof fn lemma_after_sep(s: Seq<char>, k: int)
    requires sep_at(s, k),
    ensures utf8(s.take(k + 2)).len() == utf8(s.take(k)).len() + 2,
{
    broadcast use axiom_utf8_char;
    assert(s.take(k + 2) =~= s.take(k) + (seq![':'] + seq![':']));
    lemma_utf8_concat(s.take(k), seq![':'] + seq![':']);
    lemma_utf8_concat(seq![':'], seq![':']);
    lemma_utf8_one(':');
}
/// a qualified name can be split into the encoded namespace and name
pub proof fn lemma_qname_split(ns: Seq<char>, name: Seq<char>, set: Set<u8>)
    requires qname_set(set),
    ensures
        ns.len() == 0 ==> no_sep(qname(ns, name, set)) && qname(ns, name, set) == enc(name, set),
        ns.len() > 0 ==> first_sep(qname(ns, name, set), enc(ns, set).len() as int)
            && qname(ns, name, set).take(enc(ns, set).len() as int) == enc(ns, set) && qname(ns, name, set).skip(enc(ns, set).len() as int + 2) == enc(name, set),
{
    reveal_strlit("::");
    lemma_enc_bytes(utf8(ns), set); lemma_enc_bytes(utf8(name), set);
    let q = qname(ns, name, set); let n = enc(ns, set);
    if ns.len() == 0 {
        assert forall|j: int| !#[trigger] sep_at(q, j) by { if sep_at(q, j) { assert(q.contains(q[j])); } }
    } else {
        assert(q.take(n.len() as int) =~= n);
        assert(q.skip(n.len() as int + 2) =~= enc(name, set));
        assert(sep_at(q, n.len() as int));
        assert forall|j: int| 0 <= j < n.len() implies !#[trigger] sep_at(q, j) by { assert(q[j] == n[j]); assert(n.contains(n[j])); }
    }
}
/// different names have different qualified names
pub proof fn theorem_qname_injective(ns: Seq<char>, name: Seq<char>, ns2: Seq<char>, name2: Seq<char>, set: Set<u8>)
    requires qname_set(set), qname(ns, name, set) == qname(ns2, name2, set),
    ensures ns == ns2, name == name2,
{
    lemma_qname_split(ns, name, set); lemma_qname_split(ns2, name2, set);
    let q = qname(ns, name, set);
    if ns.len() > 0 && ns2.len() > 0 {
        let a = enc(ns, set).len() as int; let b = enc(ns2, set).len() as int;
        if a < b { assert(!sep_at(q, a)); } else if b < a { assert(!sep_at(q, b)); }
        lemma_enc_injective(ns, ns2, set);
    } else if ns.len() == 0 && ns2.len() == 0 { assert(ns =~= ns2); }
    else if ns.len() > 0 { assert(sep_at(q, enc(ns, set).len() as int)); }
    else { assert(sep_at(q, enc(ns2, set).len() as int)); }
    lemma_enc_injective(name, name2, set);
}

// ---- paths: a list of names -------------------------------------------------------------------------------
pub type Path = Seq<Seq<char>>;
/// the name of one file or folder inside its parent folder
pub open spec fn plain(s: Seq<char>) -> bool { s.len() > 0 && s != "."@ && s != ".."@ && !s.contains('/') && !s.contains('\0') }
pub trait Text { spec fn text(self) -> Seq<char>; }
impl Text for &str { open spec fn text(self) -> Seq<char> { self@ } }
impl Text for String { open spec fn text(self) -> Seq<char> { self@ } }
impl Text for PathBuf { uninterp spec fn text(self) -> Seq<char>; }
#[verifier::external_body]
pub struct PathBuf { x: u64 }
impl PathBuf {
    pub uninterp spec fn view(self) -> Path;
    #[verifier::external_body]
    pub fn new() -> (r: PathBuf) ensures r@ == Seq::<Seq<char>>::empty() { unimplemented!() }
    /// an absolute path or one with several parts, "." or ".." gives another path
    #[verifier::external_body]
    pub fn push<T: Text>(&mut self, s: T)
        ensures plain(s.text()) ==> final(self)@ == old(self)@.push(s.text()), s.text().len() == 0 ==> final(self)@ == old(self)@,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn join(&self, s: &str) -> (r: PathBuf)
        ensures plain(s@) ==> r@ == self@.push(s@), s@.len() == 0 ==> r@ == self@,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn join_path(&self, s: PathBuf) -> (r: PathBuf) ensures r@ == self@ + s@ { unimplemented!() }
    #[verifier::external_body]
    pub fn copy(&self) -> (r: PathBuf) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body]
    pub fn is_dir(&self) -> (r: bool) ensures r == is_dir(self@) { unimplemented!() }
    #[verifier::external_body]
    pub fn is_file(&self) -> (r: bool) ensures r == is_file(self@) { unimplemented!() }
    /// everything in a folder is listed
    #[verifier::external_body]
    pub fn read_dir(&self) -> (r: Result<Vec<Result<DirEntry>>>)
        ensures r matches Ok(v) ==> forall|n: Seq<char>| #[trigger] exists_at(self@.push(n)) && plain(n) ==> listed(v@, n, self@),
    { unimplemented!() }
}
pub uninterp spec fn is_dir(p: Path) -> bool;
pub uninterp spec fn is_file(p: Path) -> bool;
pub open spec fn exists_at(p: Path) -> bool { is_dir(p) || is_file(p) }
/// the parent of a file or folder is a folder
#[verifier::external_body]
pub broadcast proof fn axiom_parent(p: Path, n: Seq<char>) requires #[trigger] exists_at(p.push(n)), ensures is_dir(p) { unimplemented!() }
#[verifier::external_body]
pub struct DirEntry { x: u64 }
impl DirEntry {
    pub uninterp spec fn name(&self) -> Seq<char>;
    pub uninterp spec fn parent(&self) -> Path;
    #[verifier::external_body]
    pub fn path(&self) -> (r: PathBuf) ensures r@ == self.parent().push(self.name()) { unimplemented!() }
    /// the file name as text: the name of a folder with an encoded name is always text
    #[verifier::external_body]
    pub fn file_name_text(&self) -> (r: String) ensures r@ == self.name() { unimplemented!() }
}
pub open spec fn entry_named(e: Result<DirEntry>, n: Seq<char>, parent: Path) -> bool { e matches Ok(x) && x.name() == n && x.parent() == parent }
pub open spec fn seen(v: Seq<Result<DirEntry>>, k: int, n: Seq<char>, parent: Path) -> bool { exists|i: int| 0 <= i < k && entry_named(#[trigger] v[i], n, parent) }
pub open spec fn listed(v: Seq<Result<DirEntry>>, n: Seq<char>, parent: Path) -> bool { exists|i: int| 0 <= i < v.len() && ((#[trigger] v[i]) is Err || entry_named(v[i], n, parent)) }
pub proof fn lemma_listed(v: Seq<Result<DirEntry>>, n: Seq<char>, parent: Path)
    requires listed(v, n, parent), forall|i: int| 0 <= i < v.len() ==> (#[trigger] v[i]) is Ok, ensures seen(v, v.len() as int, n, parent) {}
#[verifier::external_body]
pub fn same(a: &str, b: &str) -> (r: bool) ensures r == (a@ == b@) { unimplemented!() }

// ---- folders of components -----------------------------------------------------------------------------------
//@inlined is_separator chars push pop ends_with from to_string new to_string_lossy join all_component_types
//@item src=core/src/graph/mod.rs item="const DEFAULT_EMPTY_LAYER"
//@rewrite ^(pub )?const (\w+): &str => pub const ${2}: &'static str

//@item src=core/src/annostorage/ondisk.rs item="const SUBFOLDER_NAME"
//@rewrite ^(pub )?const (\w+): &str => pub const ${2}: &'static str

/// names of files and folders which are not the folder of a component
#[verifier::opaque]
pub open spec fn reserved(s: Seq<char>) -> bool {
    s == "."@ || s == ".."@ || s == DEFAULT_EMPTY_LAYER@ || s == "impl.cfg"@ || s == "stats.toml"@ || s == SUBFOLDER_NAME@ || ends_bin(s)
}
pub open spec fn ends_bin(s: Seq<char>) -> bool { s.len() >= 4 && s.skip(s.len() - 4) == ".bin"@ }
pub open spec fn special(c: char) -> bool { c == '%' || c == '\0' || c == '/' }
pub open spec fn piece(c: char) -> Seq<char> { if special(c) { escaped(c as int) } else { seq![c] } }
pub open spec fn flat(s: Seq<char>) -> Seq<char> decreases s.len()
{ if s.len() == 0 { Seq::empty() } else { flat(s.drop_last()) + piece(s.last()) } }
pub open spec fn folder(s: Seq<char>) -> Seq<char> {
    if reserved(s) { flat(s).drop_last() + escaped(flat(s).last() as int) } else { flat(s) }
}
pub proof fn lemma_flat(s: Seq<char>)
    ensures
        dec(utf8(flat(s))) == utf8(s),
        flat(s).len() >= s.len(),
        !flat(s).contains('/'), !flat(s).contains('\0'),
        !flat(s).contains('%') ==> flat(s) == s,
    decreases s.len(),
{
    lemma_dec_flat(s, Seq::empty());
    assert(utf8(Seq::<char>::empty()) =~= Seq::<u8>::empty());
    assert(flat(s) + Seq::<char>::empty() =~= flat(s));
    assert(dec(Seq::<u8>::empty()) =~= Seq::<u8>::empty());
    assert(utf8(s) + Seq::<u8>::empty() =~= utf8(s));
    if s.len() > 0 {
        lemma_flat(s.drop_last());
        let a = flat(s.drop_last()); let p = piece(s.last()); let f = flat(s);
        lemma_escaped(if special(s.last()) { s.last() as int } else { 0 });
        assert(p.len() >= 1);
        if f.contains('/') { let i = choose|i: int| 0 <= i < f.len() && f[i] == '/'; if i < a.len() { assert(a[i] == '/'); } else { assert(p[i - a.len()] == '/'); } }
        if f.contains('\0') { let i = choose|i: int| 0 <= i < f.len() && f[i] == '\0'; if i < a.len() { assert(a[i] == '\0'); } else { assert(p[i - a.len()] == '\0'); } }
        if !f.contains('%') {
            if special(s.last()) { assert(f[a.len() as int] == '%'); assert(false); }
            if a.contains('%') { let i = choose|i: int| 0 <= i < a.len() && a[i] == '%'; assert(f[i] == '%'); }
            assert(s.drop_last().push(s.last()) =~= s);
            assert(f =~= s);
        }
    } else { assert(flat(s) =~= s); }
}
pub proof fn lemma_dec_flat(s: Seq<char>, t: Seq<char>)
    ensures dec(utf8(flat(s) + t)) == utf8(s) + dec(utf8(t)),
    decreases s.len(),
{
    broadcast use axiom_utf8_char;
    if s.len() == 0 {
        assert(flat(s) + t =~= t);
        assert(utf8(s) + dec(utf8(t)) =~= dec(utf8(t)));
    } else {
        let c = s.last(); let p = piece(c);
        assert(flat(s) + t =~= flat(s.drop_last()) + (p + t));
        lemma_dec_flat(s.drop_last(), p + t);
        lemma_utf8_concat(p, t);
        lemma_utf8_one(c);
        if special(c) { lemma_dec_escaped(c as int, utf8(t)); assert(seq![c as u8] =~= utf8_char(c)); }
        else { lemma_dec_literal(utf8(p), utf8(t)); }
        assert(dec(utf8(p + t)) == utf8_char(c) + dec(utf8(t)));
        assert(s =~= s.drop_last() + seq![c]);
        lemma_utf8_concat(s.drop_last(), seq![c]);
        assert(utf8(s) + dec(utf8(t)) =~= utf8(s.drop_last()) + (utf8_char(c) + dec(utf8(t))));
    }
}
/// every name has a folder name of its own, which is decoded to the name again
pub proof fn lemma_folder(s: Seq<char>)
    ensures decodes(folder(s), s), s.len() > 0 ==> plain(folder(s)), s.len() == 0 ==> folder(s).len() == 0, !reserved(folder(s)),
        reserved(s) ==> flat(s).len() > 0 && (flat(s).last() as u32) < 128 && folder(s) == flat(s).drop_last() + escaped(flat(s).last() as int),
        !reserved(s) ==> folder(s) == flat(s),
{
    broadcast use axiom_utf8_char;
    reveal(reserved);
    reveal_strlit("."); reveal_strlit(".."); reveal_strlit("impl.cfg"); reveal_strlit("stats.toml"); reveal_strlit(".bin"); reveal_strlit("default_layer"); reveal_strlit("nodes_diskmap_v1");
    lemma_flat(s);
    let f = folder(s);
    if reserved(s) {
        assert(s.len() > 0);
        let c = s.last(); let d = s.drop_last();
        if ends_bin(s) { assert(s.last() == s.skip(s.len() - 4)[3]); }
        assert((c as u32) < 128 && !special(c));
        assert(flat(s) == flat(d) + seq![c]);
        assert(flat(s).drop_last() =~= flat(d));
        assert(f == flat(d) + escaped(c as int));
        lemma_dec_flat(d, escaped(c as int));
        lemma_escaped(c as int);
        lemma_dec_escaped(c as int, Seq::empty());
        assert(utf8(escaped(c as int)) + Seq::<u8>::empty() =~= utf8(escaped(c as int)));
        assert(dec(Seq::<u8>::empty()) =~= Seq::<u8>::empty());
        assert(s =~= d + seq![c]);
        lemma_utf8_concat(d, seq![c]);
        lemma_utf8_one(c);
        assert(dec(utf8(escaped(c as int))) =~= utf8(seq![c]));
        assert(dec(utf8(f)) == utf8(s));
        lemma_flat(d);
        let e = escaped(c as int);
        assert(f[f.len() - 3] == e[0]); assert(f[f.len() - 1] == e[2]);
        assert(f.contains('%'));
        if f.contains('/') { let i = choose|i: int| 0 <= i < f.len() && f[i] == '/'; if i < flat(d).len() { assert(flat(d)[i] == '/'); } else { assert(e[i - flat(d).len()] == '/'); } }
        if f.contains('\0') { let i = choose|i: int| 0 <= i < f.len() && f[i] == '\0'; if i < flat(d).len() { assert(flat(d)[i] == '\0'); } else { assert(e[i - flat(d).len()] == '\0'); } }
        lemma_not_reserved(f);
        if ends_bin(f) { assert(f.last() == f.skip(f.len() - 4)[3]); }
    } else {
        if f.contains('%') {
            lemma_not_reserved(f);
            if ends_bin(f) { lemma_flat_bin(s); }
        }
    }
}
/// a name with a percent sign is none of the single reserved names
pub proof fn lemma_not_reserved(f: Seq<char>)
    requires f.contains('%'),
    ensures f != "."@, f != ".."@, reserved(f) ==> ends_bin(f),
{
    reveal(reserved);
    reveal_strlit("."); reveal_strlit(".."); reveal_strlit("impl.cfg"); reveal_strlit("stats.toml"); reveal_strlit(".bin"); reveal_strlit("default_layer"); reveal_strlit("nodes_diskmap_v1");
    let i = choose|i: int| 0 <= i < f.len() && f[i] == '%';
}
pub proof fn lemma_flat_bin(s: Seq<char>)
    requires ends_bin(flat(s)), ensures ends_bin(s),
{
    reveal_strlit(".bin");
    let f = flat(s);
    let g = f.skip(f.len() - 4);
    assert(f[f.len() - 4] == g[0] && f[f.len() - 3] == g[1] && f[f.len() - 2] == g[2] && f[f.len() - 1] == g[3]);
    lemma_flat_last(s); let s1 = s.drop_last();
    lemma_flat_last(s1); let s2 = s1.drop_last();
    lemma_flat_last(s2); let s3 = s2.drop_last();
    lemma_flat_last(s3);
    assert(s.skip(s.len() - 4) =~= ".bin"@);
}
/// a last character which is no hexadecimal digit has been taken over
pub proof fn lemma_flat_last(s: Seq<char>)
    requires flat(s).len() > 0, forall|b: int| 0 <= b < 256 ==> #[trigger] hex(b % 16) != flat(s).last(),
    ensures s.len() > 0, s.last() == flat(s).last(), flat(s.drop_last()) == flat(s).drop_last(),
{
    let c = s.last();
    if special(c) { assert(flat(s).last() == escaped(c as int)[2]); assert(hex((c as int) % 16) == flat(s).last()); assert(false); }
    assert(flat(s).drop_last() =~= flat(s.drop_last()));
}
pub proof fn lemma_folder_injective(a: Seq<char>, b: Seq<char>) requires folder(a) == folder(b), ensures a == b
{ lemma_folder(a); lemma_folder(b); axiom_utf8_injective(a, b); }

#[verifier::external_body]
pub fn chars_of(s: &str) -> (r: Vec<char>) ensures r@ == s@ { unimplemented!() }
#[verifier::external_body]
pub fn is_separator(c: char) -> (r: bool) ensures r == (c == '/') { unimplemented!() }
/// format!("%{:02X}", u32::from(c))
#[verifier::external_body]
pub fn percent_escape(c: char) -> (r: String) ensures (c as u32) < 256 ==> r@ == escaped(c as int) { unimplemented!() }
#[verifier::external_body]
pub fn text_push_char(t: &mut String, c: char) ensures final(t)@ == old(t)@.push(c) { unimplemented!() }
#[verifier::external_body]
pub fn text_pop(t: &mut String) -> (r: Option<char>)
    ensures old(t)@.len() == 0 ==> r is None && final(t)@ == old(t)@, old(t)@.len() > 0 ==> r == Some(old(t)@.last()) && final(t)@ == old(t)@.drop_last(),
{ unimplemented!() }
#[verifier::external_body]
pub fn ends_with_bin(s: &str) -> (r: bool) ensures r == ends_bin(s@) { unimplemented!() }

//@fn src=core/src/graph/mod.rs item=is_reserved_folder_name
//@rewrite crate::annostorage::ondisk:: =>
//@rewrite name\.ends_with\("\.bin"\) => ends_with_bin(name)
//@rewrite name == ("[^"]*"|\w+) => same(name, ${1})
//@at fn_start
proof { reveal(reserved); }
//@spec
ensures ret == reserved(name@),
//@end

//@fn src=core/src/graph/mod.rs item=encode_folder_name
//@rewrite String::with_capacity\([^;]*\); => text_new(); let folder_chars = chars_of(name);
//@rewrite for c in name\.chars\(\) => for c in it: folder_chars
//@rewrite std::path::is_separator => is_separator
//@rewrite result\.push_str\(&format!\("%\{:02X\}", u32::from\(c\)\)\) => text_push(&mut result, percent_escape(c).as_str())
//@rewrite result\.push\(c\) => text_push_char(&mut result, c)
//@rewrite result\.pop\(\) => text_pop(&mut result)
//@loop 0
invariant it.seq() == name@, result@ == flat(name@.take(it.index())),
//@at loop_start 0
proof { assert(name@.take(it.index() + 1).drop_last() =~= name@.take(it.index())); }
//@at after_loop 0
proof { assert(name@.take(name@.len() as int) =~= name@); lemma_folder(name@); lemma_flat(name@); }
//@spec
ensures ret@ == folder(name@), decodes(ret@, name@), name@.len() > 0 ==> plain(ret@), !reserved(ret@),
//@end

//@fn src=core/src/graph/mod.rs item=decode_folder_name
//@rewrite percent_decode_str\(folder_name\)\s*\.decode_utf8_lossy\(\)\s*\.to_string\(\) => percent_decode(folder_name)
//@spec
ensures forall|t: Seq<char>| decodes(folder_name@, t) ==> ret@ == t,
//@end

/// the type of a component; its text is the name of a folder, different types have different texts
#[derive(Clone, Copy)]
pub struct CType { pub n: u16 }
pub uninterp spec fn type_text(n: u16) -> Seq<char>;
#[verifier::external_body]
pub proof fn axiom_type_text(a: u16, b: u16) ensures plain(type_text(a)), type_text(a) == type_text(b) ==> a == b { unimplemented!() }
impl CType {
    #[verifier::external_body]
    pub fn to_string(&self) -> (r: String) ensures r@ == type_text(self.n) { unimplemented!() }
}
#[verifier::external_body]
pub fn all_component_types() -> (r: Vec<CType>) ensures forall|n: u16| is_type(n) ==> exists|i: int| 0 <= i < r@.len() && (#[trigger] r@[i]).n == n { unimplemented!() }
pub uninterp spec fn is_type(n: u16) -> bool;
pub struct Component { pub ctype: CType, pub layer: String, pub name: String }
pub struct CompV { pub ctype: u16, pub layer: Seq<char>, pub name: Seq<char> }
impl Component {
    pub open spec fn view(&self) -> CompV { CompV { ctype: self.ctype.n, layer: self.layer@, name: self.name@ } }
    #[verifier::external_body]
    pub fn get_type(&self) -> (r: CType) ensures r == self.ctype { unimplemented!() }
    #[verifier::external_body]
    pub fn new(ctype: CType, layer: String, name: String) -> (r: Component) ensures r@ == (CompV { ctype: ctype.n, layer: layer@, name: name@ }) { unimplemented!() }
    #[verifier::external_body]
    pub fn copy(&self) -> (r: Component) ensures r@ == self@ { unimplemented!() }
}
#[verifier::external_body]
pub struct ComponentSet { x: u64 }
impl ComponentSet {
    pub uninterp spec fn has(&self, c: CompV) -> bool;
    #[verifier::external_body]
    pub fn new() -> (r: ComponentSet) ensures forall|c: CompV| !#[trigger] r.has(c) { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, c: Component) ensures forall|d: CompV| #[trigger] final(self).has(d) <==> old(self).has(d) || d == c@ { unimplemented!() }
}
#[verifier::external_body]
pub fn copy_text(s: &String) -> (r: String) ensures r@ == s@ { unimplemented!() }

pub open spec fn layer_folder(l: Seq<char>) -> Seq<char> { if l.len() == 0 { DEFAULT_EMPTY_LAYER@ } else { folder(l) } }
pub open spec fn layer_path(t: u16, l: Seq<char>) -> Path { seq!["gs"@, type_text(t), layer_folder(l)] }
pub open spec fn comp_path(c: CompV) -> Path { if c.name.len() == 0 { layer_path(c.ctype, c.layer) } else { layer_path(c.ctype, c.layer).push(folder(c.name)) } }
pub open spec fn cfg_path(loc: Path, c: CompV) -> Path { (loc + comp_path(c)).push("impl.cfg"@) }
/// different components have different folders, and the folder of a component is none of the files of another component
pub proof fn theorem_component_folders(a: CompV, b: CompV, file: Seq<char>)
    ensures
        comp_path(a) == comp_path(b) ==> a == b,
        reserved(file) ==> comp_path(a) != comp_path(b).push(file),
{
    axiom_type_text(a.ctype, b.ctype);
    let p = comp_path(a); let q = comp_path(b);
    if p == q {
        assert(p[1] == q[1]); assert(p[2] == q[2]);
        lemma_layer_folder(a.layer, b.layer);
        if a.name.len() > 0 && b.name.len() > 0 { assert(p[3] == q[3]); lemma_folder_injective(a.name, b.name); }
        else if a.name.len() == 0 && b.name.len() == 0 { assert(a.name =~= b.name); }
        else { assert(p.len() == q.len()); }
    }
    if reserved(file) && p == q.push(file) {
        assert(p.len() == 4 && a.name.len() > 0);
        lemma_folder(a.name);
        assert(p[3] == folder(a.name)); assert(q.push(file)[3] == file);
    }
}
pub proof fn lemma_layer_folder(a: Seq<char>, b: Seq<char>)
    ensures plain(layer_folder(a)), layer_folder(a) == layer_folder(b) ==> a == b, a.len() > 0 ==> layer_folder(a) != DEFAULT_EMPTY_LAYER@, a.len() > 0 ==> decodes(layer_folder(a), a),
{
    lemma_folder(a); lemma_folder(b); lemma_default();
    if folder(a) == folder(b) { lemma_folder_injective(a, b); }
    if a.len() == 0 && b.len() == 0 { assert(a =~= b); }
}
pub proof fn lemma_default() ensures plain(DEFAULT_EMPTY_LAYER@), reserved(DEFAULT_EMPTY_LAYER@), plain("gs"@), plain("impl.cfg"@), reserved("impl.cfg"@)
{
    reveal(reserved);
    reveal_strlit("default_layer"); reveal_strlit("."); reveal_strlit(".."); reveal_strlit("gs"); reveal_strlit("impl.cfg");
    assert("gs"@[0] == 'g' && ".."@[0] == '.');
}

//@fn src=core/src/graph/mod.rs item=component_to_relative_path
//@rewrite <CT: ComponentType>\(c: &Component<CT>\) => (c: &Component)
//@rewrite c\.layer\.is_empty\(\) => empty(c.layer.as_str())
//@rewrite encode_folder_name\(&c\.(\w+)\) => encode_folder_name(c.${1}.as_str())
//@at fn_start
proof { lemma_default(); axiom_type_text(c.ctype.n, c.ctype.n); lemma_layer_folder(c.layer@, c.layer@); lemma_folder(c.name@); }
//@at fn_end
proof { assert(p@ =~= comp_path(c@)); }
//@spec
ensures ret@ == comp_path(c@),
//@end

/// `n` is the folder of the layer `l`
pub open spec fn layer_is(n: Seq<char>, l: Seq<char>) -> bool { n == layer_folder(l) }
/// everything above the configuration file of a component is a folder which is listed
pub proof fn lemma_parents(loc: Path, c: CompV)
    requires is_file(cfg_path(loc, c)),
    ensures
        is_dir(loc + comp_path(c)),
        is_dir((loc.push("gs"@).push(type_text(c.ctype))).push(layer_folder(c.layer))),
        is_dir(loc.push("gs"@).push(type_text(c.ctype))),
        c.name.len() > 0 ==> is_dir((loc.push("gs"@).push(type_text(c.ctype))).push(layer_folder(c.layer)).push(folder(c.name))),
{
    broadcast use axiom_parent;
    assert(exists_at((loc + comp_path(c)).push("impl.cfg"@)));
    let l = loc.push("gs"@).push(type_text(c.ctype));
    if c.name.len() > 0 {
        assert(loc + comp_path(c) =~= l.push(layer_folder(c.layer)).push(folder(c.name)));
        assert(exists_at(l.push(layer_folder(c.layer)).push(folder(c.name))));
    } else { assert(loc + comp_path(c) =~= l.push(layer_folder(c.layer))); }
    assert(exists_at(l.push(layer_folder(c.layer))));
}

#[verifier::rlimit(60)]
//@fn src=core/src/graph/mod.rs item=find_components_from_disk
//@rewrite <CT: ComponentType, P: AsRef<Path>>\(\s*location: P,?\s*\) => (location: &PathBuf)
//@rewrite BTreeSet<Component<CT>> => ComponentSet
//@rewrite BTreeSet::new => ComponentSet::new
//@rewrite for c in CT::all_component_types\(\)\.into_iter\(\) => let ctypes = all_component_types(); for c in it0: ctypes
//@rewrite PathBuf::from\(location\.as_ref\(\)\) => location.copy()
//@rewrite \.join\(c\.to_string\(\)\) => .join(c.to_string().as_str())
//@rewrite \.join\(component_to_relative_path\( => .join_path(component_to_relative_path(
//@rewrite for layer in cpath\.read_dir\(\)\? => let layers = cpath.read_dir()?; let ghost lv = layers@; for layer in it1: layers
//@rewrite for name in layer\.path\(\)\.read_dir\(\)\? => let names = layer.path().read_dir()?; let ghost nv = names@; for name in it2: names
//@rewrite layer\.file_name\(\) => layer.file_name_text()
//@rewrite layer_file_name\.to_string_lossy\(\) => layer_file_name
//@rewrite name\.file_name\(\)\.to_string_lossy\(\) => name.file_name_text()
//@rewrite decode_folder_name\(&([^;]*?)\)(\n|,) => decode_folder_name(${1}.as_str())${2}
//@rewrite layer_name_from_file == DEFAULT_EMPTY_LAYER => same(layer_name_from_file.as_str(), DEFAULT_EMPTY_LAYER)
//@rewrite String::default\(\) => text_new()
//@rewrite c\.clone\(\) => c
//@rewrite layer_name\.clone\(\) => copy_text(&layer_name)
//@rewrite component\.clone\(\) => component.copy()
//@at fn_start
let ghost loc = location@;
proof { lemma_default(); }
//@loop 0
invariant
    loc == location@, plain("gs"@), plain("impl.cfg"@), it0.seq() == ctypes@,
    forall|d: CompV| #[trigger] result.has(d) ==> is_file(cfg_path(loc, d)),
    forall|d: CompV, j: int| 0 <= j < it0.index() && #[trigger] ctypes@[j].n == d.ctype && #[trigger] is_file(cfg_path(loc, d)) ==> result.has(d),
//@at loop_start 0
let ghost before = result;
proof { axiom_type_text(c.n, c.n); }
//@loop 1
invariant
    loc == location@, plain("gs"@), plain("impl.cfg"@), it1.seq() == lv, cpath@ == loc.push("gs"@).push(type_text(c.n)),
    forall|d: CompV| #[trigger] result.has(d) ==> is_file(cfg_path(loc, d)),
    forall|d: CompV| #[trigger] before.has(d) ==> result.has(d),
    forall|i: int| 0 <= i < it1.index() ==> #[trigger] lv[i] is Ok,
    forall|d: CompV| d.ctype == c.n && #[trigger] is_file(cfg_path(loc, d)) && seen(lv, it1.index() as int, layer_folder(d.layer), cpath@) ==> result.has(d),
//@at loop_end 0
proof {
    assert forall|d: CompV| d.ctype == c.n && #[trigger] is_file(cfg_path(loc, d)) implies result.has(d) by { lemma_parents(loc, d); }
}
//@at after_loop 1
proof {
    assert forall|d: CompV| d.ctype == c.n && #[trigger] is_file(cfg_path(loc, d)) implies result.has(d) by {
        lemma_parents(loc, d); lemma_layer_folder(d.layer, d.layer);
        assert(exists_at(cpath@.push(layer_folder(d.layer))));
        lemma_listed(lv, layer_folder(d.layer), cpath@);
    }
}
//@at loop_start 1
let ghost before1 = result;
let ghost this = layer;
//@at loop_end 1
proof {
    assert forall|d: CompV| d.ctype == c.n && #[trigger] is_file(cfg_path(loc, d)) && entry_named(this, layer_folder(d.layer), cpath@) implies result.has(d) by {
        lemma_parents(loc, d); lemma_layer_folder(d.layer, d.layer); lemma_folder(d.layer);
        assert(layer_is(this->Ok_0.name(), d.layer));
    }
    assert forall|d: CompV| d.ctype == c.n && #[trigger] is_file(cfg_path(loc, d)) && seen(lv, it1.index() as int + 1, layer_folder(d.layer), cpath@) implies result.has(d) by {
        if !seen(lv, it1.index() as int, layer_folder(d.layer), cpath@) { assert(entry_named(this, layer_folder(d.layer), cpath@)); }
    }
}
//@at before_loop 2
proof {
    assert forall|d: CompV| d.ctype == c.n && d.layer == layer_name@ && d.name.len() == 0 && #[trigger] is_file(cfg_path(loc, d)) implies result.has(d) by {
        assert(d.name =~= empty_name_component@.name); assert(d == empty_name_component@);
    }
    assert forall|l: Seq<char>| #[trigger] layer_is(layer.name(), l) implies layer_name@ == l by { lemma_layer_folder(l, l); lemma_folder(l); assert(l.len() == 0 ==> l =~= Seq::<char>::empty()); }
}
//@at after_loop 2
proof {
    assert forall|d: CompV| d.ctype == c.n && #[trigger] is_file(cfg_path(loc, d)) && d.layer == layer_name@ && layer.name() == layer_folder(d.layer) && layer.parent() == cpath@ implies result.has(d) by {
        if d.name.len() > 0 {
            lemma_parents(loc, d); lemma_folder(d.name);
            assert(exists_at(layer.parent().push(layer.name()).push(folder(d.name))));
            lemma_listed(nv, folder(d.name), layer.parent().push(layer.name()));
        }
    }
}
//@loop 2
invariant
    loc == location@, plain("gs"@), plain("impl.cfg"@), it2.seq() == nv,
    forall|d: CompV| #[trigger] result.has(d) ==> is_file(cfg_path(loc, d)),
    forall|d: CompV| #[trigger] before1.has(d) ==> result.has(d),
    forall|d: CompV| d.ctype == c.n && d.layer == layer_name@ && d.name.len() == 0 && #[trigger] is_file(cfg_path(loc, d)) ==> result.has(d),
    forall|i: int| 0 <= i < it2.index() ==> #[trigger] nv[i] is Ok,
    forall|d: CompV| d.ctype == c.n && d.layer == layer_name@ && d.name.len() > 0 && #[trigger] is_file(cfg_path(loc, d)) && seen(nv, it2.index() as int, folder(d.name), layer.parent().push(layer.name())) ==> result.has(d),
//@at loop_start 2
let ghost this2 = name;
//@at loop_end 2
proof {
    assert forall|d: CompV| d.ctype == c.n && d.layer == layer_name@ && d.name.len() > 0 && #[trigger] is_file(cfg_path(loc, d)) && entry_named(this2, folder(d.name), layer.parent().push(layer.name())) implies result.has(d) by {
        lemma_folder(d.name);
        assert(named_component@ == d);
    }
    assert forall|d: CompV| d.ctype == c.n && d.layer == layer_name@ && d.name.len() > 0 && #[trigger] is_file(cfg_path(loc, d)) && seen(nv, it2.index() as int + 1, folder(d.name), layer.parent().push(layer.name())) implies result.has(d) by {
        if !seen(nv, it2.index() as int, folder(d.name), layer.parent().push(layer.name())) { assert(entry_named(this2, folder(d.name), layer.parent().push(layer.name()))); }
    }
}
//@spec
ensures ret matches Ok(r) ==> forall|d: CompV| is_type(d.ctype) ==> (#[trigger] r.has(d) <==> is_file(cfg_path(location@, d))),
//@end

// ---- folders of corpora --------------------------------------------------------------------------------------
//@inlined iter collect is_dir file_name read_dir file_type map_err percent_decode_str decode_utf8_lossy default as_ref to_string_lossy
//@item src=graphannis/src/annis/db/corpusstorage.rs item="const PATH_ENCODE_SET"
//@rewrite (pub )?const (\w+): &AsciiSet = &CONTROLS => pub fn ${2}() -> (r: AsciiSet) ensures path_set(r@) { controls()
//@rewrite ;\s*$ => }

//@item src=graphannis/src/annis/db/corpusstorage.rs item="const EMPTY_CORPUS_DIRECTORY_NAME"
//@rewrite (?m)^(pub )?const (\w+): &str => pub const ${2}: &'static str

/// '%', '/' and NUL are escaped
pub open spec fn path_set(s: Set<u8>) -> bool { s.contains(37) && s.contains(47) && s.contains(0) }
pub open spec fn corpus_folder(name: Seq<char>, set: Set<u8>) -> Seq<char> {
    if name.len() == 0 { EMPTY_CORPUS_DIRECTORY_NAME@ } else if name == "."@ { "%2E"@ } else if name == ".."@ { "%2E%2E"@ } else { enc(name, set) }
}
/// every corpus has a folder of its own below the database folder, which is decoded to its name again
pub proof fn lemma_corpus_folder(n: Seq<char>, set: Set<u8>)
    requires path_set(set),
    ensures plain(corpus_folder(n, set)),
        n.len() > 0 ==> decodes(corpus_folder(n, set), n) && corpus_folder(n, set) != EMPTY_CORPUS_DIRECTORY_NAME@,
{
    broadcast use axiom_utf8_char;
    reveal_strlit("."); reveal_strlit(".."); reveal_strlit("%2E"); reveal_strlit("%2E%2E"); reveal_strlit("%");
    lemma_enc_bytes(utf8(n), set);
    let f = corpus_folder(n, set);
    if n == "."@ || n == ".."@ {
        let e = escaped(46);
        assert("%2E"@ =~= e); assert("%2E%2E"@ =~= e + e);
        lemma_escaped(46);
        lemma_dec_escaped(46, Seq::empty()); lemma_dec_escaped(46, utf8(e)); lemma_utf8_concat(e, e); lemma_utf8_one('.');
        assert(utf8(e) + Seq::<u8>::empty() =~= utf8(e));
        assert("."@ =~= seq!['.']); assert(".."@ =~= seq!['.'] + seq!['.']);
        lemma_utf8_concat(seq!['.'], seq!['.']);
        assert(dec(Seq::<u8>::empty()) =~= Seq::<u8>::empty());
        assert(dec(utf8(e)) =~= seq![46u8]);
        assert(dec(utf8(e + e)) =~= seq![46u8] + seq![46u8]);
    } else if n.len() > 0 {
        lemma_utf8_nonempty(n);
        if f == "."@ || f == ".."@ || f == "%"@ {
            // such a text is only the encoding of itself
            lemma_one_decoded(f);
            axiom_utf8_injective(f, n);
        }
        if f == "%"@ { lemma_no_lone_percent(utf8(n), set); }
    }
}
pub proof fn lemma_utf8_nonempty(n: Seq<char>) requires n.len() > 0, ensures utf8(n).len() > 0
{ broadcast use axiom_utf8_char; }
pub proof fn lemma_one_decoded(f: Seq<char>) requires f == "."@ || f == ".."@ || f == "%"@, ensures dec(utf8(f)) == utf8(f)
{
    broadcast use axiom_utf8_char;
    reveal_strlit("."); reveal_strlit(".."); reveal_strlit("%");
    assert(dec(Seq::<u8>::empty()) =~= Seq::<u8>::empty());
    lemma_utf8_one('.'); lemma_utf8_one('%');
    if f.len() == 1 {
        assert(f =~= seq![f[0]]);
        assert(utf8(f).drop_first() =~= Seq::<u8>::empty());
        assert(dec(utf8(f)) =~= utf8(f));
    } else {
        assert(f =~= seq!['.'] + seq!['.']);
        lemma_utf8_concat(seq!['.'], seq!['.']);
        lemma_dec_literal(utf8(f), Seq::empty());
        assert(utf8(f) + Seq::<u8>::empty() =~= utf8(f));
        assert(dec(utf8(f)) =~= utf8(f));
    }
}
pub proof fn lemma_no_lone_percent(b: Seq<u8>, set: Set<u8>) requires set.contains(37), enc_bytes(b, set).len() == 1, ensures enc_bytes(b, set)[0] != '%'
{ let f = enc_byte(b[0], set); assert(f.len() == 1 || f.len() == 3); assert(enc_bytes(b, set)[0] == f[0]); }
pub proof fn theorem_corpus_folders(a: Seq<char>, b: Seq<char>, set: Set<u8>)
    requires path_set(set), corpus_folder(a, set) == corpus_folder(b, set), ensures a == b
{
    lemma_corpus_folder(a, set); lemma_corpus_folder(b, set);
    if a.len() > 0 && b.len() > 0 { axiom_utf8_injective(a, b); } else { assert(a =~= b); }
}
pub struct CorpusStorage { pub db_dir: PathBuf }
#[verifier::external_body]
pub fn path_of(parent: &PathBuf, name: &str) -> (r: PathBuf) ensures plain(name@) ==> r@ == parent@.push(name@), name@.len() == 0 ==> r@ == parent@ { unimplemented!() }

impl CorpusStorage {
//@fn src=graphannis/src/annis/db/corpusstorage.rs item=CorpusStorage::corpus_directory_on_disk
//@rewrite : Cow<str> =\s*utf8_percent_encode\((\w+), PATH_ENCODE_SET\)\.into\(\) => : String = percent_encode(${1}, &encode_set)
//@rewrite corpus_name\.is_empty\(\) => empty(corpus_name)
//@rewrite corpus_name == ("[^"]*"|\w+) => same(corpus_name, ${1})
//@rewrite (\w+)\.as_ref\(\)(\s*\}) => ${1}.as_str()${2}
//@rewrite \[self\.db_dir\.to_string_lossy\(\)\.as_ref\(\), &?(\w+)\]\s*\.iter\(\)\s*\.collect\(\) => path_of(&self.db_dir, ${1})
//@at fn_start
let encode_set = PATH_ENCODE_SET();
proof { lemma_corpus_folder(corpus_name@, encode_set@); }
//@spec
ensures exists|s: Set<u8>| path_set(s) && ret@ == #[trigger] self.db_dir@.push(corpus_folder(corpus_name@, s)), ret@.len() == self.db_dir@.len() + 1, plain(ret@.last()),
//@end

//@fn src=graphannis/src/annis/db/corpusstorage.rs item=CorpusStorage::list_from_disk
//@rewrite (?s)let directories =\s*self\.db_dir\s*\.read_dir\(\)\s*\.map_err\(.*?\}\)\?; => let directories = self.db_dir.read_dir()?; let ghost dv = directories@;
//@rewrite (?s)let c_dir = c_dir\.map_err\(.*?\}\)\?; => let c_dir = c_dir?;
//@rewrite (?s)let ftype = c_dir\s*\.file_type\(\)\s*\.map_err\(.*?\}\)\?; => let ftype = c_dir.path();
//@rewrite c_dir\.file_name\(\) => c_dir.file_name_text()
//@rewrite directory_name\.to_string_lossy\(\) => directory_name
//@rewrite corpus_name == EMPTY_CORPUS_DIRECTORY_NAME => same(corpus_name.as_str(), EMPTY_CORPUS_DIRECTORY_NAME)
//@rewrite String::default\(\) => text_new()
//@rewrite percent_decode_str\(&corpus_name\) => percent_decode(corpus_name.as_str())
//@rewrite corpus_name\.decode_utf8_lossy\(\)\.to_string\(\) => corpus_name
//@forname 0 it
//@loop 0
invariant
    it.seq() == dv,
    forall|i: int| 0 <= i < it.index() ==> #[trigger] dv[i] is Ok,
    forall|n: Seq<char>, s: Set<u8>| #[trigger] path_set(s) && #[trigger] is_dir(self.db_dir@.push(corpus_folder(n, s))) && seen(dv, it.index() as int, corpus_folder(n, s), self.db_dir@) ==> lists(corpora@, n),
//@at loop_start 0
let ghost this = c_dir; let ghost before = corpora@;
//@at loop_end 0
proof {
    assert forall|n: Seq<char>, s: Set<u8>| #[trigger] path_set(s) && #[trigger] is_dir(self.db_dir@.push(corpus_folder(n, s))) && seen(dv, it.index() as int + 1, corpus_folder(n, s), self.db_dir@) implies lists(corpora@, n) by {
        lemma_corpus_folder(n, s);
        assert(forall|i: int| 0 <= i < before.len() ==> corpora@[i] == before[i]);
        if seen(dv, it.index() as int, corpus_folder(n, s), self.db_dir@) {
            assert(lists(before, n));
        } else {
            assert(entry_named(this, corpus_folder(n, s), self.db_dir@));
            assert(n.len() == 0 ==> n =~= Seq::<char>::empty());
            assert(corpora@[corpora@.len() - 1]@ == n);
        }
    }
}
//@at after_loop 0
proof {
    assert forall|n: Seq<char>, s: Set<u8>| #[trigger] path_set(s) && #[trigger] is_dir(self.db_dir@.push(corpus_folder(n, s))) implies lists(corpora@, n) by {
        lemma_corpus_folder(n, s);
        assert(exists_at(self.db_dir@.push(corpus_folder(n, s))));
        lemma_listed(dv, corpus_folder(n, s), self.db_dir@);
    }
}
//@spec
ensures ret matches Ok(r) ==> forall|n: Seq<char>, s: Set<u8>| #[trigger] path_set(s) && #[trigger] is_dir(self.db_dir@.push(corpus_folder(n, s))) ==> lists(r@, n),
//@end
}
pub open spec fn lists(v: Seq<String>, n: Seq<char>) -> bool { exists|i: int| 0 <= i < v.len() && (#[trigger] v[i])@ == n }

} // verus!
fn main() {}
