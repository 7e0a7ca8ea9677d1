// Verus unit: the textual form of matches (graphannis/src/annis/db/corpusstorage.rs, graphannis/src/annis/util/mod.rs)
#![allow(unused)]
use vstd::prelude::*;
verus! {
global size_of usize == 8;
pub type NodeID = u64;
pub enum GraphAnnisError { Timeout, Other(u64) }
pub type Result<T> = std::result::Result<T, GraphAnnisError>;
//@include textlib.inc
//@item src=core/src/graph/mod.rs item="const ANNIS_NS"
//@rewrite ^(pub )?const (\w+): &str => pub const ${2}: &'static str

//@item src=core/src/graph/mod.rs item="const NODE_TYPE"
//@rewrite ^(pub )?const (\w+): &str => pub const ${2}: &'static str

//@item src=graphannis/src/annis/db/corpusstorage.rs item="const MAX_PREALLOCATED_RESULTS"

//@item src=graphannis/src/annis/db/corpusstorage.rs item="const NODE_NAME_ENCODE_SET"
//@rewrite (pub )?const (\w+): &AsciiSet = &CONTROLS => pub fn ${2}() -> (r: AsciiSet) ensures name_set(r@) { controls()
//@rewrite ;\s*$ => }

/// '%', ':' and white space are escaped
pub open spec fn name_set(s: Set<u8>) -> bool { s.contains(37) && s.contains(58) && forall|x: u8| 9 <= x <= 13 || x == 32 ==> #[trigger] s.contains(x) }

#[verifier::external_body]
pub fn text_new() -> (r: String) ensures r@.len() == 0 { unimplemented!() }
#[verifier::external_body]
pub fn text_push(t: &mut String, s: &str) ensures final(t)@ == old(t)@ + s@ { unimplemented!() }
#[verifier::external_body]
pub fn text_push_char(t: &mut String, c: char) ensures final(t)@ == old(t)@.push(c) { unimplemented!() }
#[verifier::external_body]
pub fn empty(s: &str) -> (r: bool) ensures r == (s@.len() == 0) { unimplemented!() }
#[verifier::external_body]
pub fn same(a: &str, b: &str) -> (r: bool) ensures r == (a@ == b@) { unimplemented!() }

// ---- matches and the graph they refer to -------------------------------------------------------------------
pub struct AnnoKey { pub name: String, pub ns: String }
pub struct Match { pub node: NodeID, pub anno_key: AnnoKey }
pub type MatchGroup = Vec<Match>;
#[verifier::external_body]
pub struct AnnotationGraph { x: u64 }
impl AnnotationGraph {
    pub uninterp spec fn node_name(&self, n: NodeID) -> Option<Seq<char>>;
    /// get_node_annos().get_value_for_item(node, annis::node_name)
    #[verifier::external_body]
    pub fn name_of(&self, n: &NodeID) -> (r: Result<Option<String>>)
        ensures r matches Ok(x) ==> (x is Some <==> self.node_name(*n) is Some) && (x is Some ==> x->0@ == self.node_name(*n)->0),
    { unimplemented!() }
}
/// the name re-encoded as in ANNIS 3
pub uninterp spec fn quirks_form(s: Seq<char>) -> Seq<char>;
#[verifier::external_body]
pub fn quirks_name(s: &String) -> (r: String) ensures r@ == quirks_form(s@) { unimplemented!() }

/// a node without an annotation is only shown with its name
pub open spec fn shown_key(ns: Seq<char>, name: Seq<char>, set: Set<u8>) -> Seq<char> {
    if ns == ANNIS_NS@ && name == NODE_TYPE@ { Seq::empty() }
    else if ns.len() == 0 { enc(name, set) + "::"@ }
    else { enc(ns, set) + "::"@ + (enc(name, set) + "::"@) }
}
pub open spec fn shown_node(db: AnnotationGraph, n: NodeID, quirks: bool) -> Seq<char> {
    match db.node_name(n) { Some(x) => if quirks { quirks_form(x) } else { x }, None => Seq::empty() }
}
pub open spec fn shown(db: AnnotationGraph, m: Match, quirks: bool, set: Set<u8>) -> Seq<char> { shown_key(m.anno_key.ns@, m.anno_key.name@, set) + shown_node(db, m.node, quirks) }
/// the nodes of a match, separated by a space
pub open spec fn match_text(db: AnnotationGraph, m: Seq<Match>, quirks: bool, set: Set<u8>) -> Seq<char> decreases m.len()
{
    if m.len() == 0 { Seq::empty() }
    else if m.len() == 1 { shown(db, m[0], quirks, set) }
    else { match_text(db, m.drop_last(), quirks, set).push(' ') + shown(db, m.last(), quirks, set) }
}

// ---- the result list ------------------------------------------------------------------------------------------
#[verifier::external_body]
pub struct Results { x: u64 }
impl Results {
    pub uninterp spec fn view(&self) -> Seq<Result<MatchGroup>>;
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<Result<MatchGroup>>)
        ensures old(self)@.len() == 0 ==> r is None && final(self)@ == old(self)@, old(self)@.len() > 0 ==> r == Some(old(self)@[0]) && final(self)@ == old(self)@.drop_first(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn take(self, n: usize) -> (r: Results) ensures r@ == self@.take(if n <= self@.len() { n as int } else { self@.len() as int }) { unimplemented!() }
    #[verifier::external_body]
    pub fn enumerate(self) -> (r: NumberedResults) ensures r@ == self@ { unimplemented!() }
}
#[verifier::external_body]
pub struct NumberedResults { x: u64 }
impl NumberedResults {
    pub uninterp spec fn view(&self) -> Seq<Result<MatchGroup>>;
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<(usize, Result<MatchGroup>)>)
        ensures old(self)@.len() == 0 ==> r is None && final(self)@ == old(self)@, old(self)@.len() > 0 ==> r is Some && (r->0).1 == old(self)@[0] && final(self)@ == old(self)@.drop_first(),
    { unimplemented!() }
}
#[derive(Clone, Copy)]
pub struct TimeoutCheck { pub x: u64 }
impl TimeoutCheck { #[verifier::external_body] pub fn check(&self) -> Result<()> { unimplemented!() } }
#[derive(Clone, Copy)]
pub enum QueryLanguage { AQL, AQLQuirksV3 }
#[derive(Clone, Copy)]
pub struct FindArguments { pub offset: usize, pub limit: Option<usize>, pub order: u8 }
pub struct SearchQuery<'a> { pub query: &'a str, pub query_language: QueryLanguage }
#[verifier::external_body]
pub struct Disjunction { x: u64 }
#[verifier::external_body]
pub struct Prepared { x: u64 }
impl Prepared {
    pub uninterp spec fn of(&self, corpus: Seq<char>, query: Seq<char>) -> bool;
    #[verifier::external_body]
    pub fn db(&self) -> Result<&AnnotationGraph> { unimplemented!() }
}
/// these are the results of the query
pub uninterp spec fn results_of(corpus: Seq<char>, query: Seq<char>, args: FindArguments, quirks: bool, r: Seq<Result<MatchGroup>>) -> bool;
pub struct CorpusStorage { pub x: u64 }
impl CorpusStorage {
    #[verifier::external_body]
    fn prepare_query(&self, corpus: &str, query: &str, lang: QueryLanguage) -> (r: Result<Prepared>)
        ensures r matches Ok(p) ==> p.of(corpus@, query@),
    { unimplemented!() }
    #[verifier::external_body]
    fn create_find_iterator_for_query(&self, db: &AnnotationGraph, prep: &Prepared, args: FindArguments, quirks: bool, timeout: TimeoutCheck) -> (r: Result<(Results, Option<usize>)>)
        ensures r matches Ok(x) ==> forall|c: Seq<char>, q: Seq<char>| #[trigger] prep.of(c, q) ==> results_of(c, q, args, quirks, x.0@),
    { unimplemented!() }
}
#[verifier::external_body]
pub fn new_vector_with_memory_aligned_capacity(n: usize) -> (r: Vec<String>) ensures r@.len() == 0 { unimplemented!() }
#[verifier::external_body]
pub fn min_of(a: usize, b: usize) -> (r: usize) ensures r <= a { unimplemented!() }

pub open spec fn is_quirks(l: QueryLanguage) -> bool { l is AQLQuirksV3 }
pub open spec fn smaller(a: int, b: int) -> int { if a <= b { a } else { b } }
pub open spec fn shows(db: AnnotationGraph, m: Result<MatchGroup>, quirks: bool, set: Set<u8>, t: String) -> bool { m is Ok && t@ == match_text(db, m->Ok_0@, quirks, set) }
/// the window of the results, as text
pub open spec fn window_text(db: AnnotationGraph, items: Seq<Result<MatchGroup>>, args: FindArguments, quirks: bool, set: Set<u8>, r: Seq<String>, skipped: int) -> bool {
    let n = items.len() as int;
    &&& skipped == smaller(args.offset as int, n)
    &&& r.len() == (match args.limit { Some(l) => smaller(l as int, n - skipped), None => n - skipped })
    &&& forall|i: int| 0 <= i < r.len() ==> shows(db, items[skipped + i], quirks, set, #[trigger] r[i])
}
pub open spec fn texts(db: AnnotationGraph, items: Seq<Result<MatchGroup>>, quirks: bool, set: Set<u8>, r: Seq<String>) -> bool {
    r.len() <= items.len() && forall|i: int| 0 <= i < r.len() ==> shows(db, items[i], quirks, set, #[trigger] r[i])
}

/// the texts of a window of the results of the query
pub open spec fn finds(corpus: Seq<char>, query: Seq<char>, args: FindArguments, quirks: bool, r: Seq<String>, skipped: int) -> bool {
    exists|db: AnnotationGraph, items: Seq<Result<MatchGroup>>, set: Set<u8>| results_of(corpus, query, args, quirks, items) && name_set(set) && #[trigger] window_text(db, items, args, quirks, set, r, skipped)
}
pub proof fn lemma_texts(db: AnnotationGraph, items: Seq<Result<MatchGroup>>, quirks: bool, set: Set<u8>, r: Seq<String>, t: String)
    requires texts(db, items, quirks, set, r), r.len() < items.len(), shows(db, items[r.len() as int], quirks, set, t),
    ensures texts(db, items, quirks, set, r.push(t)),
{
    let q = r.push(t);
    assert forall|i: int| 0 <= i < q.len() implies shows(db, items[i], quirks, set, #[trigger] q[i]) by { if i < r.len() { assert(q[i] == r[i]); } }
}
pub proof fn lemma_window(db: AnnotationGraph, items: Seq<Result<MatchGroup>>, args: FindArguments, quirks: bool, set: Set<u8>, r: Seq<String>, skipped: int, window: Seq<Result<MatchGroup>>)
    requires
        texts(db, window, quirks, set, r), r.len() == window.len(), skipped == smaller(args.offset as int, items.len() as int),
        r.len() == (match args.limit { Some(l) => smaller(l as int, items.len() - skipped), None => items.len() - skipped }),
        forall|i: int| 0 <= i < window.len() ==> #[trigger] window[i] == items[skipped + i],
    ensures window_text(db, items, args, quirks, set, r, skipped),
{
    assert forall|i: int| 0 <= i < r.len() implies shows(db, items[skipped + i], quirks, set, #[trigger] r[i]) by { assert(window[i] == items[skipped + i]); }
}

//@inlined read get_read_or_error is_empty push_str get_node_annos get_value_for_item split map percent_decode_str decode_utf8_lossy utf8_percent_encode into join to_string new min from necessary_components
impl CorpusStorage {
#[verifier::rlimit(60)]
//@fn src=graphannis/src/annis/db/corpusstorage.rs item=CorpusStorage::find_in_single_corpus
//@rewrite <S: AsRef<str>> =>
//@rewrite &SearchQuery<S> => &SearchQuery
//@rewrite (?s), \|db\| \{.*?\n        \}\)\?; => )?;
//@rewrite (?s)let lock = prep\.db_entry\.read\(\)\?;\s*let db = get_read_or_error\(&lock\)\?; => let db = prep.db()?;
//@rewrite &prep\.query => &prep
//@rewrite limit\.min\(MAX_PREALLOCATED_RESULTS\) => min_of(limit, MAX_PREALLOCATED_RESULTS)
//@rewrite (?s)while skipped < find_arguments\.offset\s*&& let Some\(m\) = base_it\.next\(\)(\s*) => while skipped < find_arguments.offset ${1}
//@rewrite (?s)m\?;(\s*)skipped \+= 1; => let mm = base_it.next(); if mm.is_none() { break; } let m = mm.unwrap(); let _ = m?;${1}skipped += 1;
//@rewrite let base_it: Box<dyn Iterator<Item = Result<MatchGroup>>> => let base_it: Results
//@rewrite Box::new\(base_it\.take\(limit\)\) => base_it.take(limit)
//@rewrite Box::new\(base_it\)(\s) => base_it${1}
//@rewrite (?s)for \(match_nr, m\) in base_it\.enumerate\(\) => let mut numbered = base_it.enumerate(); while let Some((match_nr, m)) = numbered.next()
//@rewrite String::new\(\) => text_new()
//@rewrite for singlematch in &m  => for singlematch in it: m.iter()
//@rewrite (\w+)\.(ns|name) != (\w+) => !same(${1}.${2}.as_str(), ${3})
//@rewrite singlematch_anno_key\.ns\.is_empty\(\) => empty(singlematch_anno_key.ns.as_str())
//@rewrite (?s): Cow<str> =\s*utf8_percent_encode\(&singlematch_anno_key\.(\w+), NODE_NAME_ENCODE_SET\)\s*\.into\(\) => : String = percent_encode(singlematch_anno_key.${1}.as_str(), &encode_set)
//@rewrite (?s)let re_encoded_name = node_name.*?\.join\("/"\); => let re_encoded_name = quirks_name(&node_name);
//@rewrite match_desc\.push\(' '\) => text_push_char(&mut match_desc, ' ')
//@rewrite match_desc\.push_str\("::"\) => text_push(&mut match_desc, "::")
//@rewrite match_desc\.push_str\(&(\w+)\) => text_push(&mut match_desc, ${1}.as_str())
//@rewrite (?s)db\s*\.get_node_annos\(\)\s*\.get_value_for_item\(&singlematch\.node, &NODE_NAME_KEY\)\? => db.name_of(&singlematch.node)?
//@at fn_start
let encode_set = NODE_NAME_ENCODE_SET();
//@at? after_call create_find_iterator_for_query 0
let ghost items = base_it@;
//@loop 1
invariant_except_break skipped <= find_arguments.offset, skipped <= items.len(), base_it@ == items.skip(skipped as int),
ensures skipped as int == smaller(find_arguments.offset as int, items.len() as int), base_it@ == items.skip(skipped as int),
decreases find_arguments.offset - skipped,
//@at? before_loop 2
let ghost window = base_it@;
proof {
    let n = items.len() - skipped;
    match find_arguments.limit { Some(l) => { assert(window =~= items.skip(skipped as int).take(smaller(l as int, n))); }, None => { assert(window =~= items.skip(skipped as int)); } }
    assert(window.skip(0) =~= window);
}
//@loop 2
invariant
    name_set(encode_set@),
    results@.len() <= window.len(), numbered@ == window.skip(results@.len() as int), texts(*db, window, quirks_mode, encode_set@, results@),
ensures results@.len() == window.len(), texts(*db, window, quirks_mode, encode_set@, results@),
decreases window.len() - results@.len(),
//@at loop_start 2
let ghost before = results@;
let ghost item = m;
proof { assert(before.len() < window.len()); assert(window.skip(results@.len() as int)[0] == window[results@.len() as int]); }
//@loop 3
invariant
    it.seq().len() == m@.len(), forall|i: int| 0 <= i < m@.len() ==> *(#[trigger] it.seq()[i]) == m@[i],
    any_nodes_added == (it.index() > 0),
    match_desc@ == match_text(*db, m@.take(it.index() as int), quirks_mode, encode_set@),
//@at loop_start 3
let ghost text_before = match_desc@;
let ghost k = it.index() as int;
//@at loop_end 3
proof {
    reveal_strlit("::");
    assert(m@.take(k + 1).drop_last() =~= m@.take(k));
    assert(m@.take(k + 1).last() == m@[k]);
    assert(match_desc@ =~= (if k > 0 { text_before.push(' ') } else { text_before }) + shown(*db, m@[k], quirks_mode, encode_set@));
    if k == 0 { assert(text_before =~= Seq::<char>::empty()); assert(match_desc@ =~= shown(*db, m@[0], quirks_mode, encode_set@)); }
}
//@at after_loop 3
proof { assert(m@.take(m@.len() as int) =~= m@); }
//@at loop_end 2
proof {
    assert(window.skip(before.len() as int).drop_first() =~= window.skip(before.len() as int + 1));
    assert(results@ =~= before.push(results@.last()));
    assert(window[before.len() as int] == item);
    assert(shows(*db, item, quirks_mode, encode_set@, results@.last()));
    lemma_texts(*db, window, quirks_mode, encode_set@, before, results@.last());
    assert(texts(*db, window, quirks_mode, encode_set@, results@));
}
//@at fn_end
proof {
    assert(prep.of(corpus_name@, query.query@));
    assert(quirks_mode == is_quirks(query.query_language));
    assert(results_of(corpus_name@, query.query@, find_arguments, quirks_mode, items));
    assert(skipped == smaller(find_arguments.offset as int, items.len() as int));
    assert(results@.len() == (match find_arguments.limit { Some(l) => smaller(l as int, items.len() - skipped), None => items.len() - skipped }));
    assert(results@.len() == window.len());
    assert forall|i: int| 0 <= i < window.len() implies window[i] == items[skipped + i] by {}
    lemma_window(*db, items, find_arguments, quirks_mode, encode_set@, results@, skipped as int, window);
    assert(window_text(*db, items, find_arguments, quirks_mode, encode_set@, results@, skipped as int));
    assert(window_text(*db, items, find_arguments, is_quirks(query.query_language), encode_set@, results@, skipped as int));
    assert(name_set(encode_set@));
    assert(finds(corpus_name@, query.query@, find_arguments, is_quirks(query.query_language), results@, skipped as int));
}
//@spec
ensures ret matches Ok(x) ==> finds(corpus_name@, query.query@, find_arguments, is_quirks(query.query_language), x.0@, x.1 as int),
//@end
}

// ---- reading the text again -------------------------------------------------------------------------------
/// str::split_ascii_whitespace: the finished words and the current one
pub open spec fn scan(s: Seq<char>) -> (Seq<Seq<char>>, Seq<char>) decreases s.len()
{
    if s.len() == 0 { (Seq::empty(), Seq::empty()) }
    else {
        let (w, cur) = scan(s.drop_last());
        if space(s.last()) { (if cur.len() > 0 { w.push(cur) } else { w }, Seq::empty()) } else { (w, cur.push(s.last())) }
    }
}
pub open spec fn words(s: Seq<char>) -> Seq<Seq<char>> { let (w, cur) = scan(s); if cur.len() > 0 { w.push(cur) } else { w } }
pub open spec fn sep_pos(s: Seq<char>) -> int { choose|k: int| first_sep(s, k) }
/// str::splitn(n, "::")
pub open spec fn parts(s: Seq<char>, n: nat) -> Seq<Seq<char>> decreases n
{
    if n == 0 { Seq::empty() }
    else if n == 1 || no_sep(s) { seq![s] }
    else { seq![s.take(sep_pos(s))] + parts(s.skip(sep_pos(s) + 2), (n - 1) as nat) }
}
pub open spec fn node_part(s: Seq<char>) -> Seq<char> { parts(s, 3).last() }
#[verifier::external_body]
pub fn split_words<'a>(s: &'a str) -> (r: Vec<&'a str>) ensures r@.len() == words(s@).len(), forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i])@ == words(s@)[i] { unimplemented!() }
#[verifier::external_body]
pub fn split_parts<'a>(s: &'a str, n: usize) -> (r: Vec<&'a str>) ensures r@.len() == parts(s@, n as nat).len(), forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i])@ == parts(s@, n as nat)[i] { unimplemented!() }
#[verifier::external_body]
pub fn copy_text(s: &str) -> (r: String) ensures r@ == s@ { unimplemented!() }
#[verifier::external_body]
pub fn last_of<'a>(v: &Vec<&'a str>) -> (r: Option<&'a str>) ensures v@.len() == 0 ==> r is None, v@.len() > 0 ==> r == Some(v@.last()) { unimplemented!() }

//@inlined split_ascii_whitespace splitn collect last to_string
//@fn src=graphannis/src/annis/util/mod.rs item=node_names_from_match
//@rewrite Vec::default\(\) => Vec::<String>::new()
//@rewrite for m in match_line\.split_ascii_whitespace\(\) => let all_words = split_words(match_line); for m in it: all_words
//@rewrite m\.splitn\((\d), "::"\)\.collect\(\) => split_parts(m, ${1})
//@rewrite elements\.last\(\) => last_of(&elements)
//@rewrite last_element\.to_string\(\) => copy_text(last_element)
//@loop 0
invariant
    it.seq().len() == words(match_line@).len(), forall|i: int| 0 <= i < it.seq().len() ==> (#[trigger] it.seq()[i])@ == words(match_line@)[i],
    result@.len() == it.index(), forall|i: int| 0 <= i < it.index() ==> (#[trigger] result@[i])@ == node_part(words(match_line@)[i]),
//@at loop_start 0
proof { lemma_parts_nonempty(m@, 3); }
//@spec
ensures ret@.len() == words(match_line@).len(), forall|i: int| 0 <= i < ret@.len() ==> (#[trigger] ret@[i])@ == node_part(words(match_line@)[i]),
//@end
pub proof fn lemma_parts_nonempty(s: Seq<char>, n: nat) requires n > 0, ensures parts(s, n).len() > 0 decreases n
{ if n > 1 && !no_sep(s) { lemma_parts_nonempty(s.skip(sep_pos(s) + 2), (n - 1) as nat); } }

pub open spec fn no_space(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> !space(#[trigger] s[i]) }
/// the documented form of node names: not empty, no white space and no "::"
pub open spec fn good_name(s: Seq<char>) -> bool { s.len() > 0 && no_space(s) && no_sep(s) }
pub proof fn lemma_scan_word(s: Seq<char>, t: Seq<char>)
    requires no_space(t), ensures scan(s + t) == (scan(s).0, scan(s).1 + t) decreases t.len()
{
    if t.len() == 0 { assert(s + t =~= s); assert(scan(s).1 + t =~= scan(s).1); }
    else {
        assert((s + t).drop_last() =~= s + t.drop_last());
        assert forall|i: int| 0 <= i < t.drop_last().len() implies !space(#[trigger] t.drop_last()[i]) by { assert(t.drop_last()[i] == t[i]); }
        lemma_scan_word(s, t.drop_last());
        assert((s + t).last() == t[t.len() - 1]);
        assert((scan(s).1 + t.drop_last()).push(t.last()) =~= scan(s).1 + t);
    }
}
/// what is shown for one node has no white space, and consists of the encoded key and the name
pub proof fn lemma_shown(ns: Seq<char>, name: Seq<char>, node: Seq<char>, set: Set<u8>)
    requires name_set(set), good_name(node),
    ensures
        no_space(shown_key(ns, name, set) + node), (shown_key(ns, name, set) + node).len() > 0,
        parts(shown_key(ns, name, set) + node, 3) == (
            if ns == ANNIS_NS@ && name == NODE_TYPE@ { seq![node] } else if ns.len() == 0 { seq![enc(name, set), node] } else { seq![enc(ns, set), enc(name, set), node] }),
{
    reveal_strlit("::");
    lemma_enc_bytes(utf8(ns), set); lemma_enc_bytes(utf8(name), set);
    let k = shown_key(ns, name, set); let t = k + node;
    let a = enc(ns, set); let b = enc(name, set);
    if ns == ANNIS_NS@ && name == NODE_TYPE@ {
        assert(t =~= node);
    } else {
        let rest = b + "::"@ + node;
        lemma_part(b, node, 2);
        if ns.len() == 0 {
            assert(t =~= b + "::"@ + node);
            lemma_part(b, node, 3);
            assert(parts(t, 3) =~= seq![b, node]);
        } else {
            assert(t =~= a + "::"@ + rest);
            lemma_part(a, rest, 3);
            assert(parts(rest, 2) =~= seq![b, node]);
            assert(parts(t, 3) =~= seq![a, b, node]);
        }
    }
    assert forall|i: int| 0 <= i < t.len() implies !space(#[trigger] t[i]) by {
        if i >= k.len() { assert(t[i] == node[i - k.len()]); }
        else {
            assert(t[i] == k[i]);
            if ns.len() == 0 { if i < b.len() { assert(k[i] == b[i]); } }
            else { let c = b + "::"@; if i < a.len() { assert(k[i] == a[i]); } else if i >= a.len() + 2 { assert(k[i] == c[i - a.len() - 2]); if i - a.len() - 2 < b.len() { assert(c[i - a.len() - 2] == b[i - a.len() - 2]); } } }
        }
    }
}
pub proof fn lemma_part(a: Seq<char>, rest: Seq<char>, n: nat)
    requires !a.contains(':'), n > 1,
    ensures parts(a + "::"@ + rest, n) == seq![a] + parts(rest, (n - 1) as nat), parts(rest, 1) == seq![rest], no_sep(rest) ==> parts(rest, (n - 1) as nat) == seq![rest],
{
    reveal_strlit("::");
    let s = a + "::"@ + rest;
    assert(sep_at(s, a.len() as int));
    assert forall|j: int| 0 <= j < a.len() implies !#[trigger] sep_at(s, j) by { assert(s[j] == a[j]); }
    assert(first_sep(s, a.len() as int));
    let p = sep_pos(s);
    assert(first_sep(s, p));
    if p < a.len() { assert(!sep_at(s, p)); } else if a.len() < p { assert(!sep_at(s, a.len() as int)); }
    assert(s.take(p) =~= a);
    assert(s.skip(p + 2) =~= rest);
}
pub open spec fn named(db: AnnotationGraph, m: Seq<Match>) -> bool { forall|i: int| 0 <= i < m.len() ==> db.node_name((#[trigger] m[i]).node) is Some && good_name(db.node_name(m[i].node)->0) }
pub proof fn lemma_words(db: AnnotationGraph, m: Seq<Match>, set: Set<u8>)
    requires name_set(set), named(db, m), m.len() > 0,
    ensures
        scan(match_text(db, m, false, set)).1 == shown(db, m.last(), false, set),
        words(match_text(db, m, false, set)).len() == m.len(),
        forall|i: int| 0 <= i < m.len() ==> #[trigger] words(match_text(db, m, false, set))[i] == shown(db, m[i], false, set),
    decreases m.len(),
{
    let l = m.last(); let t = shown(db, l, false, set);
    lemma_shown(l.anno_key.ns@, l.anno_key.name@, db.node_name(l.node)->0, set);
    if m.len() == 1 {
        lemma_scan_word(Seq::empty(), t);
        assert(Seq::<char>::empty() + t =~= t);
        assert(scan(Seq::<char>::empty()).1 + t =~= t);
    } else {
        let d = m.drop_last(); let s = match_text(db, d, false, set);
        assert(named(db, d)) by { assert forall|i: int| 0 <= i < d.len() implies db.node_name((#[trigger] d[i]).node) is Some && good_name(db.node_name(d[i].node)->0) by { assert(d[i] == m[i]); } }
        lemma_words(db, d, set);
        lemma_shown(d.last().anno_key.ns@, d.last().anno_key.name@, db.node_name(d.last().node)->0, set);
        let s1 = s.push(' ');
        assert(s1.drop_last() =~= s);
        assert(scan(s1) == (scan(s).0.push(scan(s).1), Seq::<char>::empty()));
        assert(scan(s1).0 == words(s));
        lemma_scan_word(s1, t);
        assert(Seq::<char>::empty() + t =~= t);
        let w = words(match_text(db, m, false, set));
        assert(w == words(s).push(t));
        assert forall|i: int| 0 <= i < m.len() implies #[trigger] w[i] == shown(db, m[i], false, set) by { if i < d.len() { assert(words(s)[i] == shown(db, d[i], false, set)); } }
    }
}
/// reading the text of a match gives the names of its nodes
pub proof fn theorem_names(db: AnnotationGraph, m: Seq<Match>, set: Set<u8>)
    requires name_set(set), named(db, m), m.len() > 0,
    ensures
        words(match_text(db, m, false, set)).len() == m.len(),
        forall|i: int| 0 <= i < m.len() ==> node_part(#[trigger] words(match_text(db, m, false, set))[i]) == db.node_name(m[i].node)->0,
{
    lemma_words(db, m, set);
    assert forall|i: int| 0 <= i < m.len() implies node_part(#[trigger] words(match_text(db, m, false, set))[i]) == db.node_name(m[i].node)->0 by {
        lemma_shown(m[i].anno_key.ns@, m[i].anno_key.name@, db.node_name(m[i].node)->0, set);
    }
}
/// matches with the same text have the same nodes and annotation keys
pub proof fn theorem_unambiguous(db: AnnotationGraph, m: Seq<Match>, m2: Seq<Match>, set: Set<u8>)
    requires name_set(set), named(db, m), named(db, m2), m.len() > 0, m2.len() > 0, match_text(db, m, false, set) == match_text(db, m2, false, set),
    ensures
        m.len() == m2.len(),
        forall|i: int| 0 <= i < m.len() ==> db.node_name((#[trigger] m[i]).node) == db.node_name(m2[i].node) && m[i].anno_key.ns@ == m2[i].anno_key.ns@ && m[i].anno_key.name@ == m2[i].anno_key.name@,
{
    lemma_words(db, m, set); lemma_words(db, m2, set);
    assert forall|i: int| 0 <= i < m.len() implies db.node_name((#[trigger] m[i]).node) == db.node_name(m2[i].node) && m[i].anno_key.ns@ == m2[i].anno_key.ns@ && m[i].anno_key.name@ == m2[i].anno_key.name@ by {
        let a = m[i]; let b = m2[i];
        lemma_shown(a.anno_key.ns@, a.anno_key.name@, db.node_name(a.node)->0, set);
        lemma_shown(b.anno_key.ns@, b.anno_key.name@, db.node_name(b.node)->0, set);
        let w = words(match_text(db, m, false, set))[i];
        assert(w == shown(db, a, false, set)); assert(w == shown(db, b, false, set));
        let p = parts(w, 3);
        assert(p.last() == db.node_name(a.node)->0 && p.last() == db.node_name(b.node)->0);
        if p.len() == 2 {
            lemma_enc_injective(a.anno_key.name@, b.anno_key.name@, set);
            assert(a.anno_key.ns@ =~= b.anno_key.ns@);
        } else if p.len() == 3 {
            assert(p[0] == enc(a.anno_key.ns@, set)); assert(p[0] == enc(b.anno_key.ns@, set));
            assert(p[1] == enc(a.anno_key.name@, set)); assert(p[1] == enc(b.anno_key.name@, set));
            lemma_enc_injective(a.anno_key.ns@, b.anno_key.ns@, set);
            lemma_enc_injective(a.anno_key.name@, b.anno_key.name@, set);
        }
    }
}
} // verus!
fn main() {}
