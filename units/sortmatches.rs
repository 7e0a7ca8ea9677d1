// Verus unit: the order of matches (graphannis/src/annis/db/sort_matches.rs)
#![allow(unused)]
use vstd::prelude::*;
use std::cmp::Ordering;
use std::sync::Arc;
verus! {
global size_of usize == 8;
pub type NodeID = u64;
pub enum GraphAnnisError { Other(u64) }
pub type Result<T> = std::result::Result<T, GraphAnnisError>;

//@include sortlib.inc
//@inlined rsplit_once split is_empty filter collect count zip last percent_decode as_bytes decode_utf8_lossy cmp unwrap_or_default new as_ptr strcoll min copied clone as_str to_string Owned Borrowed
//@fn src=graphannis/src/annis/db/sort_matches.rs item=split_path_and_nodename ret=ret
//@rewrite (?s)full_node_name\s*\.rsplit_once\('#'\) => rsplit_at(full_node_name, '#')
//@spec
ensures ret.0@ == path_part(full_node_name@), ret.1@ == name_part(full_node_name@),
//@at fn_start
proof { reveal_strlit(""); assert(""@ =~= Seq::<char>::empty()); }
//@end

//@fn src=graphannis/src/annis/db/sort_matches.rs item=compare_string ret=ret
//@rewrite s1\.cmp\(s2\) => cmp_str(s1, s2)
//@rewrite (?s)unsafe \{.*?libc::strcoll\(c_s1\.as_ptr\(\), c_s2\.as_ptr\(\)\)\s*\} => strcoll_of(s1, s2)
//@rewrite cmp_from_strcoll\.cmp\(&0\) => cmp_i32(&cmp_from_strcoll, &0)
//@spec
ensures ret == string_order(s1@, s2@, collation),
//@end

pub proof fn lemma_segs_from(a: Seq<Seq<char>>, b: Seq<Seq<char>>, c: CollationType, i: int)
    requires 0 <= i, forall|k: int| 0 <= k < i && k < a.len() && k < b.len() ==> #[trigger] string_order(a[k], b[k], c) is Equal,
    ensures seg_order(a, b, c, 0) == seg_order(a, b, c, if i <= a.len() && i <= b.len() { i } else if a.len() <= b.len() { a.len() as int } else { b.len() as int }),
    decreases i,
{
    if i > 0 {
        lemma_segs_from(a, b, c, i - 1);
        if i <= a.len() && i <= b.len() { assert(string_order(a[i - 1], b[i - 1], c) is Equal); }
    }
}

//@fn src=graphannis/src/annis/db/sort_matches.rs item=compare_document_path ret=ret
//@rewrite (\w+)\.split\('/'\)\.filter\(\|s\| !s\.is_empty\(\)\) => parts_of(${1})
//@rewrite (path\d)\.last\(\) => last_of(&${1})
//@rewrite (?s)let (doc\d): Cow<str> =\s*percent_encoding::percent_decode\(doc\d\.as_bytes\(\)\)\.decode_utf8_lossy\(\); => let ${1}: String = percent_decoded(${1});
//@rewrite compare_string\(&doc1, &doc2, => compare_string(doc1.as_str(), doc2.as_str(),
//@rewrite string_cmp != std::cmp::Ordering::Equal => !same_ordering(string_cmp, Ordering::Equal)
//@rewrite length1\.cmp\(&length2\) => cmp_usize(&length1, &length2)
//@rewrite for \(part1, part2\) in it1\.zip\(it2\) => let zipped = it1.zip(it2); for (part1, part2) in it: zipped
//@at fn_start
let ghost (a, b) = (segments(p1@), segments(p2@));
//@loop 0
invariant
    !quirks_mode, a == segments(p1@), b == segments(p2@),
    it.seq().len() == (if a.len() <= b.len() { a.len() } else { b.len() }),
    forall|i: int| 0 <= i < it.seq().len() ==> (#[trigger] it.seq()[i]).0@ == a[i] && it.seq()[i].1@ == b[i],
    forall|k: int| 0 <= k < it.index() ==> #[trigger] string_order(a[k], b[k], collation) is Equal,
//@at before_call compare_string 1
let ghost k = it.index() as int;
proof { lemma_segs_from(a, b, collation, it.index() as int); assert(it.seq()[k] == (part1, part2)); assert(seg_order(a, b, collation, k) == then(string_order(a[k], b[k], collation), seg_order(a, b, collation, k + 1))); assert(part1@ == a[k] && part2@ == b[k]); }
//@at after_loop 0
proof { lemma_segs_from(a, b, collation, if a.len() <= b.len() { a.len() as int } else { b.len() as int }); }
//@spec
ensures ret == path_order(p1@, p2@, collation, quirks_mode),
//@end

impl SortCache {
//@fn src=graphannis/src/annis/db/sort_matches.rs item=SortCache::new ret=ret
//@rewrite Arc<dyn GraphStorage> => Storage
//@spec
ensures forall|w: World| #![trigger ret.ok(w)] w.order == gs_order ==> ret.ok(w),
//@end

#[verifier::rlimit(60)]
//@fn src=graphannis/src/annis/db/sort_matches.rs item=SortCache::compare_match_by_text_pos ret=ret
//@rewrite &dyn NodeAnnotationStorage => &NodeAnnos
//@rewrite m1\.anno_key\.cmp\(&m2\.anno_key\) => cmp_key(&m1.anno_key, &m2.anno_key)
//@rewrite m1\.node\.cmp\(&m2\.node\) => cmp_u64(&m1.node, &m2.node)
//@rewrite Cow::Owned\(val\.clone\(\)\) => copy_text(val.as_str())
//@rewrite Cow::Borrowed\(val\.as_str\(\)\) => copy_text(val.as_str())
//@rewrite val\.to_string\(\) => copy_text(val.as_str())
//@rewrite &NODE_NAME_KEY => node_name_key()
//@rewrite split_path_and_nodename\(&(\w+)\) => split_path_and_nodename(${1}.as_str())
//@rewrite (\w+)_cmp != Ordering::Equal => !same_ordering(${1}_cmp, Ordering::Equal)
//@rewrite self\.left_token\.get\(&(m\d)\.node\)\.copied\(\) => copy_opt(self.left_token.get(&${1}.node))
//@spec
requires old(self).ok(World { annos: node_annos, helper: token_helper, order: old(self).gs_order, collation, quirks: quirks_mode }),
ensures
    final(self).ok(World { annos: node_annos, helper: token_helper, order: old(self).gs_order, collation, quirks: quirks_mode }),
    ret matches Ok(o) ==> o == match_order(World { annos: node_annos, helper: token_helper, order: old(self).gs_order, collation, quirks: quirks_mode }, *m1, *m2),
//@end

//@fn src=graphannis/src/annis/db/sort_matches.rs item=SortCache::compare_matchgroup_by_text_pos ret=ret
//@rewrite &dyn NodeAnnotationStorage => &NodeAnnos
//@rewrite std::cmp::min\( => min_of(
//@rewrite m2\.len\(\)\.cmp\(&m1\.len\(\)\) => cmp_usize(&m2.len(), &m1.len())
//@rewrite element_cmp != Ordering::Equal => !same_ordering(element_cmp, Ordering::Equal)
//@loop 0
invariant
    self.ok(World { annos: node_annos, helper: token_helper, order: self.gs_order, collation, quirks: reverse_path }),
    self.gs_order == old(self).gs_order,
    group_order(World { annos: node_annos, helper: token_helper, order: self.gs_order, collation, quirks: reverse_path }, m1@, m2@) == group_order_from(World { annos: node_annos, helper: token_helper, order: self.gs_order, collation, quirks: reverse_path }, m1@, m2@, i as int),
//@spec
requires old(self).ok(World { annos: node_annos, helper: token_helper, order: old(self).gs_order, collation, quirks: reverse_path }),
ensures
    final(self).ok(World { annos: node_annos, helper: token_helper, order: old(self).gs_order, collation, quirks: reverse_path }),
    ret matches Ok(o) ==> o == group_order(World { annos: node_annos, helper: token_helper, order: old(self).gs_order, collation, quirks: reverse_path }, m1@, m2@),
//@end
}

} // verus!
fn main() {}
