// Verus unit: disk path storage: one stored path per node, queries on it
#![allow(unused)]
use vstd::prelude::*;
use std::ops::Bound;
verus! {
//@include graphlib.inc
//@include storelib.inc
//@item src=core/src/graph/storage/disk_path.rs item="const MAX_DEPTH"
//@rewrite pub\(crate\) => pub
//@item src=core/src/graph/storage/disk_path.rs item="const ENTRY_SIZE"
//@rewrite const ENTRY_SIZE => pub const ENTRY_SIZE
// ---- contracts assumed for dependencies ---------------------------------------------------------
/// memmap2::Mmap: a file as bytes
#[verifier::external_body]
pub struct Mmap { x: u8 }
impl Mmap { pub uninterp spec fn view(&self) -> Seq<u8>; }
/// the 8 bytes starting at i as a little endian number
pub uninterp spec fn le64(b: Seq<u8>, i: int) -> u64;
/// binary_layout: `length: u8, nodes: [u8; MAX_DEPTH * 8]`
pub struct PathView<'a> { pub data: &'a Mmap, pub start: usize }
pub fn path_view(data: &Mmap, from: usize, to: usize) -> (r: PathView<'_>)
    requires from + ENTRY_SIZE == to, to <= data.view().len(),
    ensures r.data == data, r.start == from,
{ PathView { data, start: from } }
impl<'a> PathView<'a> {
    #[verifier::external_body]
    pub fn length_read(&self) -> (r: u8) requires self.start < self.data.view().len(), ensures r == self.data.view()[self.start as int] { unimplemented!() }
    /// `nodes()[from..to].try_into()?` read as a number
    #[verifier::external_body]
    pub fn read_node(&self, from: usize, to: usize) -> (r: Result<u64>)
        requires from + 8 == to, to <= MAX_DEPTH * 8, self.start + ENTRY_SIZE <= self.data.view().len(),
        ensures r == Ok::<u64, GraphAnnisCoreError>(le64(self.data.view(), self.start + 1 + from)),
    { unimplemented!() }
}
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
pub struct DiskMap<K, V> { k: K, v: V }
pub struct PathBuf { x: u8 }
/// `path[a..b].iter().map(|n| Ok(*n))` appended to a result
#[verifier::external_body]
pub fn append_part(r: &mut Vec<Result<NodeID>>, c: &Vec<NodeID>, a: usize, b: usize)
    requires a <= b <= c@.len(),
    ensures final(r)@.len() == old(r)@.len() + (b - a),
        forall|i: int| #![trigger final(r)@[i]] 0 <= i < final(r)@.len() ==> final(r)@[i] == (if i < old(r)@.len() { old(r)@[i] } else { Ok::<NodeID, GraphAnnisCoreError>(c@[a + i - old(r)@.len()]) }),
{ unimplemented!() }
/// `into_iter().position(|n| n == target).map(|idx| idx + 1)`
#[verifier::external_body]
pub fn position_after(c: Vec<NodeID>, target: NodeID) -> (r: Option<usize>)
    ensures
        r matches Some(d) ==> 1 <= d <= c@.len() && c@[d - 1] == target && forall|i: int| #![trigger c@[i]] 0 <= i < d - 1 ==> c@[i] != target,
        r is None ==> forall|i: int| #![trigger c@[i]] 0 <= i < c@.len() ==> c@[i] != target,
{ unimplemented!() }
/// `into_iter().take(end).skip(start)`
#[verifier::external_body]
pub fn take_skip(c: Vec<NodeID>, end: usize, start: usize) -> (r: Vec<NodeID>)
    ensures r@ == c@.subrange(if start <= end && start <= c@.len() { start as int } else { 0 }, if start > end || start > c@.len() { 0 } else if end <= c@.len() { end as int } else { c@.len() as int }),
{ unimplemented!() }

//@item src=core/src/graph/storage/disk_path.rs item="struct DiskPathStorage"
//@rewrite (?m)^    (\w+): => pub $1:
//@inlined new
//@fn src=core/src/graph/storage/disk_path.rs item=offset_in_file
//@spec
    requires n * (ENTRY_SIZE as u64) <= u64::MAX,
    ensures ret == n * (ENTRY_SIZE as u64),
//@end
//@fn src=core/src/graph/storage/disk_path.rs item=offset_in_path
//@spec
    requires path_idx * 8 <= usize::MAX,
    ensures ret == path_idx * 8,
//@end
//@inlined is_empty len new
impl DiskPathStorage {
    pub open spec fn entries(&self) -> int { self.paths_file_size as int / ENTRY_SIZE as int }
    pub open spec fn stored_len(&self, n: NodeID) -> int { self.paths.view()[n as int * ENTRY_SIZE as int] as int }
    /// the stored path of a node: the nodes after it
    pub open spec fn path(&self, n: NodeID) -> Seq<NodeID> {
        if n as int >= self.entries() { Seq::empty() } else { Seq::new(self.stored_len(n) as nat, |i: int| le64(self.paths.view(), n as int * ENTRY_SIZE as int + 1 + i * 8)) }
    }
    /// the file has the recorded size, no stored path is longer than the maximal depth, nodes of a path are distinct
    pub open spec fn wf(&self) -> bool {
        &&& self.paths_file_size as int <= self.paths.view().len() <= usize::MAX
        &&& forall|n: NodeID| #![trigger self.path(n)] 0 <= (n as int) < self.entries() ==> self.stored_len(n) <= MAX_DEPTH
        &&& forall|n: NodeID| #![trigger self.path(n)] self.path(n).no_duplicates() && !self.path(n).contains(n)
    }
    /// t is d steps behind s
    pub open spec fn steps(&self, s: NodeID, t: NodeID, d: int) -> bool {
        (d == 0 && s == t) || (1 <= d <= self.path(s).len() && self.path(s)[d - 1] == t)
    }
    proof fn lemma_offset(&self, n: NodeID)
        requires self.wf(), (n as int) < self.entries(),
        ensures 0 <= n as int * ENTRY_SIZE as int, (n as int + 1) * ENTRY_SIZE as int <= self.paths_file_size as int, n as int * ENTRY_SIZE as int + ENTRY_SIZE as int == (n as int + 1) * ENTRY_SIZE as int,
    {
        assert(ENTRY_SIZE == 121);
        assert((n as int + 1) * 121 <= self.paths_file_size as int) by (nonlinear_arith) requires (n as int) < self.paths_file_size as int / 121;
        assert(n as int * ENTRY_SIZE as int + ENTRY_SIZE as int == (n as int + 1) * ENTRY_SIZE as int) by (nonlinear_arith);
    }
//@fn src=core/src/graph/storage/disk_path.rs item=DiskPathStorage::number_of_entries
//@spec
    ensures ret == self.entries(),
//@at fn_start
    proof { assert(ENTRY_SIZE == 121); }
//@end
//@fn src=core/src/graph/storage/disk_path.rs item=DiskPathStorage::get_outgoing_edge
//@rewrite node_path::View::new\(&self\.paths\[offset\.\.\(offset \+ ENTRY_SIZE\)\]\) => path_view(&self.paths, offset, offset + ENTRY_SIZE)
//@rewrite view\.length\(\)\.read\(\) => view.length_read()
//@rewrite let buffer: \[u8; 8\] = view\.nodes\(\)\[(\S+)\.\.(\S+)\]\.try_into\(\)\? => let buffer = view.read_node($1, $2)?
//@rewrite u64::from_le_bytes\(buffer\) => buffer
//@spec
    requires self.wf(),
    ensures ret == Ok::<Option<NodeID>, GraphAnnisCoreError>(if self.path(node).len() == 0 { None } else { Some(self.path(node)[0]) }),
//@at fn_start
    proof { assert(ENTRY_SIZE == 121); assert(MAX_DEPTH == 15); if (node as int) < self.entries() { self.lemma_offset(node); assert(self.path(node).len() == self.stored_len(node)); } }
//@end
//@fn src=core/src/graph/storage/disk_path.rs item=DiskPathStorage::path_for_node
//@rewrite node_path::View::new\(&self\.paths\[offset\.\.\(offset \+ ENTRY_SIZE\)\]\) => path_view(&self.paths, offset, offset + ENTRY_SIZE)
//@rewrite view\.length\(\)\.read\(\) => view.length_read()
//@rewrite let element_buffer: \[u8; 8\] =\s*view\.nodes\(\)\[(.+?)\.\.(offset_in_path\(i \+ 1\))\]\.try_into\(\)\? => let element_buffer = view.read_node($1, $2)?
//@rewrite u64::from_le_bytes\(element_buffer\) => element_buffer
//@rewrite Vec::default\(\) => Vec::new()
//@rewrite for i in 0\.\.length => for i in it: 0..length
//@spec
    requires self.wf(),
    ensures ret matches Ok(v) && v@ == self.path(node),
//@at fn_start
    proof { assert(ENTRY_SIZE == 121); assert(MAX_DEPTH == 15); if (node as int) < self.entries() { self.lemma_offset(node); assert(self.path(node).len() == self.stored_len(node)); } else { assert(self.path(node) =~= Seq::<NodeID>::empty()); } }
//@at before_loop 0
    let ghost p = self.path(node);
//@loop 0
    invariant
        p == self.path(node), p.len() == length, length <= MAX_DEPTH, MAX_DEPTH == 15, ENTRY_SIZE == 121,
        (node as int) < self.entries(), self.wf(), view.data == &self.paths, view.start == offset, offset == node as int * 121, offset + 121 <= self.paths.view().len(),
        result@.len() == it.index@, forall|k: int| #![trigger result@[k]] 0 <= k < result@.len() ==> result@[k] == p[k],
//@at after_loop 0
    proof { assert(result@ =~= p); }
//@end
//@fn src=core/src/graph/storage/disk_path.rs item="EdgeContainer for DiskPathStorage::get_outgoing_edges"
//@rewrite Box<dyn Iterator<Item = Result<NodeID>> \+ 'a> => Vec<Result<NodeID>>
//@rewrite <'a> =>
//@rewrite &'a self => &self
//@rewrite Box::new\(std::iter::once\(Ok\(n\)\)\) => once_node(n)
//@rewrite Box::new\(std::iter::once\(Err\(e\)\)\) => once_err(e)
//@rewrite Box::new\(std::iter::empty\(\)\) => Vec::new()
//@spec
    requires self.wf(),
    ensures once(ret@), forall|t: NodeID| #![trigger listed(ret@, t)] listed(ret@, t) <==> self.steps(node, t, 1),
//@at fn_start
    proof { assert(!self.path(node).contains(node)); if self.path(node).len() > 0 { assert(self.path(node)[0] != node) by { if self.path(node)[0] == node { assert(self.path(node).contains(node)); } } } }
//@end
//@fn src=core/src/graph/storage/disk_path.rs item="GraphStorage for DiskPathStorage::find_connected"
//@rewrite Box<dyn Iterator<Item = Result<NodeID>> \+ 'a> => Vec<Result<NodeID>>
//@rewrite <'a> =>
//@rewrite &'a self => &self
//@rewrite? std::ops::Bound => Bound
//@rewrite Vec::default\(\) => Vec::new()
//@rewrite try_as_boxed_iter!\(self\.path_for_node\(node\)\) => match self.path_for_node(node) { Ok(v) => v, Err(e) => { return once_err(e); } }
//@rewrite result\.extend\(path\[start\.\.end\]\.iter\(\)\.map\(\|n\| Ok\(\*n\)\)\) => append_part(&mut result, &path, start, end)
//@rewrite end\.min\(path\.len\(\)\) => (if end <= path.len() { end } else { path.len() })
//@rewrite Box::new\(result\.into_iter\(\)\) => result
//@spec
    requires self.wf(),
    ensures once(ret@), forall|t: NodeID| #![trigger listed(ret@, t)] listed(ret@, t) <==> exists|d: int| #![trigger self.steps(node, t, d)] self.steps(node, t, d) && in_range(d, min_distance, max_distance),
//@at fn_start
    let ghost mx = max_distance;
//@at fn_end
    proof {
        let p = self.path(node);
        let r = result@;
        assert(p.no_duplicates() && !p.contains(node));
        assert(in_range(0, 0, mx) || !in_range(0, 0, mx));
        let o: int = if in_range(0, min_distance, mx) { 1 } else { 0 };
        assert(o == 1 <==> min_distance == 0 && in_range(0, 0, mx));
        let n: int = if start < end { end - start } else { 0 };
        assert(r.len() == o + n);
        assert(o == 1 ==> r[0] == Ok::<NodeID, GraphAnnisCoreError>(node));
        assert forall|i: int| #![trigger r[i]] o <= i < r.len() implies r[i] == Ok::<NodeID, GraphAnnisCoreError>(p[start + i - o]) by { }
        assert forall|d: int| #![trigger in_range(d, min_distance, mx)] 1 <= d <= p.len() implies (in_range(d, min_distance, mx) <==> start <= d - 1 < end) by { }
        assert forall|i: int, j: int| #![trigger r[i], r[j]] 0 <= i < j < r.len() implies r[i] != r[j] by {
            if i < o { assert(p.contains(p[start + j - o])); }
        }
        assert forall|t: NodeID| #![trigger listed(r, t)] listed(r, t) <==> exists|d: int| #![trigger self.steps(node, t, d)] self.steps(node, t, d) && in_range(d, min_distance, mx) by {
            if listed(r, t) {
                let i = choose|i: int| #![trigger r[i]] 0 <= i < r.len() && r[i] == Ok::<NodeID, GraphAnnisCoreError>(t);
                if i < o { assert(self.steps(node, t, 0)); } else { assert(self.steps(node, t, start + i - o + 1)); assert(in_range(start + i - o + 1, min_distance, mx)); }
            }
            if exists|d: int| #![trigger self.steps(node, t, d)] self.steps(node, t, d) && in_range(d, min_distance, mx) {
                let d = choose|d: int| #![trigger self.steps(node, t, d)] self.steps(node, t, d) && in_range(d, min_distance, mx);
                if d == 0 { assert(r[0] == Ok::<NodeID, GraphAnnisCoreError>(t)); } else { assert(r[o + d - 1 - start] == Ok::<NodeID, GraphAnnisCoreError>(t)); }
            }
        }
    }
//@end
//@fn src=core/src/graph/storage/disk_path.rs item="GraphStorage for DiskPathStorage::distance"
//@rewrite path\s*\.into_iter\(\)\s*\.position\(\|n\| n == target\)\s*\.map\(\|idx\| idx \+ 1\) => position_after(path, target)
//@spec
    requires self.wf(),
    ensures
        source != target ==> (ret matches Ok(Some(d)) ==> self.steps(source, target, d as int)),
        source != target ==> (ret matches Ok(None) ==> forall|d: int| !#[trigger] self.steps(source, target, d)),
//@end
//@fn src=core/src/graph/storage/disk_path.rs item="GraphStorage for DiskPathStorage::is_connected"
//@rewrite? std::ops::Bound => Bound
//@rewrite min_distance\.saturating_sub\(1\)\.clamp\(0, path\.len\(\)\) => (if min_distance.saturating_sub(1) <= path.len() { min_distance.saturating_sub(1) } else { path.len() })
//@rewrite end\.clamp\(0, path\.len\(\)\) => (if end <= path.len() { end } else { path.len() })
//@rewrite for p in path\.into_iter\(\)\.take\(end\)\.skip\(start\) => for p in it: take_skip(path, end, start)
//@spec
    requires self.wf(),
    ensures
        ret is Ok,
        source != target ==> (ret matches Ok(b) ==> b == (exists|d: int| #![trigger self.steps(source, target, d)] self.steps(source, target, d) && in_range(d, min_distance, max_distance))),
//@at fn_start
    let ghost mx = max_distance;
//@at before_loop 0
    let ghost q = self.path(source);
    let ghost part = q.subrange(if start <= end { start as int } else { 0 }, if start <= end { end as int } else { 0 });
    proof { assert forall|d: int| #![trigger in_range(d, min_distance, mx)] 1 <= d <= q.len() implies (in_range(d, min_distance, mx) <==> start <= d - 1 < end) by { } }
//@loop 0
    invariant
        self.wf(), q == self.path(source), it.seq() == part, start <= q.len(), end <= q.len(),
        part == q.subrange(if start <= end { start as int } else { 0 }, if start <= end { end as int } else { 0 }),
        forall|d: int| #![trigger in_range(d, min_distance, mx)] 1 <= d <= q.len() ==> (in_range(d, min_distance, mx) <==> start <= d - 1 < end),
        forall|i: int| #![trigger part[i]] 0 <= i < it.index() ==> part[i] != target,
        mx == max_distance,
//@at loop_start 0
    proof { assert(p == part[it.index() as int]); assert(p == q[start + it.index()]); assert(p == target ==> self.steps(source, target, start + it.index() + 1)); assert(in_range(start + it.index() + 1, min_distance, mx)); }
//@at after_loop 0
    proof {
        assert forall|d: int| #![trigger self.steps(source, target, d)] source != target && self.steps(source, target, d) implies !in_range(d, min_distance, mx) by {
            if in_range(d, min_distance, mx) { assert(part[d - 1 - start] == q[d - 1]); }
        }
    }
//@end
}
#[verifier::external_body]
pub fn once_err(e: GraphAnnisCoreError) -> (r: Vec<Result<NodeID>>) ensures r@.len() == 1, r@[0] is Err { unimplemented!() }
}
