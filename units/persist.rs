// Verus unit: changes are stored, also if the process ends at any point (core/src/graph/mod.rs)
#![allow(unused)]
use vstd::prelude::*;
verus! {
global size_of usize == 8;
pub type NodeID = u64;
#[derive(Debug)]
pub enum GraphAnnisCoreError { EmptyComponentPath, Other(u64) }
pub type Result<T> = std::result::Result<T, GraphAnnisCoreError>;

//@item src=core/src/types.rs item="struct AnnoKey"
//@item src=core/src/types.rs item="struct Edge"
//@item src=core/src/graph/update.rs item="enum UpdateEvent"

//@include world.inc
//@inlined component_to_relative_path new write create from open rename clone take exists is_dir map
//@item src=core/src/graph/mod.rs item="const GLOBAL_STATISTICS_FILE_NAME"
//@rewrite ^(pub )?const (\w+): &str => pub const ${2}: &'static str
//@item src=core/src/annostorage/ondisk.rs item="const SUBFOLDER_NAME"
//@rewrite ^(pub )?const (\w+): &str => pub const ${2}: &'static str

// ---- what is on the disk --------------------------------------------------------------------------
/// a stored component; `id` is the name of its implementation
pub struct Stored { pub edges: Set<Edge>, pub labels: EdgeLabels, pub id: Seq<char> }
/// a folder with a graph: node annotations (in one of two formats), components with their configuration files and a log of changes
pub struct Dir { pub memory: Option<Labels>, pub ondisk: Option<Labels>, pub comps: Map<Component, Stored>, pub cfgs: Map<Component, Seq<char>>, pub log: Option<Hist> }
/// the folder of a corpus: "current" and "backup"
pub struct Disk { pub current: Option<Dir>, pub backup: Option<Dir> }
pub open spec fn dir_of(d: Disk, backup: bool) -> Option<Dir> { if backup { d.backup } else { d.current } }
pub open spec fn with_dir(d: Disk, backup: bool, x: Option<Dir>) -> Disk { if backup { Disk { backup: x, ..d } } else { Disk { current: x, ..d } } }
pub open spec fn empty_dir() -> Dir { Dir { memory: None, ondisk: None, comps: Map::empty(), cfgs: Map::empty(), log: None } }
/// the folder a graph is loaded from
pub open spec fn in_backup(d: Disk) -> bool { d.backup is Some }
pub open spec fn rec(d: Disk) -> Option<Dir> { dir_of(d, in_backup(d)) }
pub open spec fn annos_of(x: Dir) -> Option<Labels> { if x.ondisk is Some { x.ondisk } else { x.memory } }
/// every listed component can be read
pub open spec fn readable(x: Dir) -> bool {
    &&& annos_of(x) is Some
    &&& forall|c: Component| #![trigger x.cfgs.dom().contains(c)] x.cfgs.dom().contains(c) ==> x.comps.dom().contains(c) && x.comps[c].id == x.cfgs[c]
}
pub open spec fn content(x: Dir) -> World {
    World {
        labels: annos_of(x)->0,
        edges: |c: Component| if x.cfgs.dom().contains(c) { x.comps[c].edges } else { Set::<Edge>::empty() },
        elabels: |c: Component| if x.cfgs.dom().contains(c) { x.comps[c].labels } else { EdgeLabels::empty() },
    }
}
pub open spec fn log_of(x: Dir) -> Hist { match x.log { Some(l) => l, None => Seq::empty() } }
/// opening the graph again gives what the changes `h` make of `w`: the stored graph contains the first of them, its log the others
pub open spec fn safe(d: Disk, w: World, h: Hist) -> bool {
    &&& rec(d) matches Some(x) && readable(x) && exists|a: Hist| #[trigger] applied(w, a, content(x)) && h == a + log_of(x)
}

// ---- the file system: every operation may stop or fail in between -----------------------------------
pub enum Place { Root, Dir(bool), Log(bool), OnDisk(bool), Comp(bool, Component), Cfg(bool, Component), Other }
pub open spec fn joined(p: Place, s: Seq<char>) -> Place {
    match p {
        Place::Root => if s == "backup"@ { Place::Dir(true) } else if s == "current"@ { Place::Dir(false) } else { Place::Other },
        Place::Dir(b) => if s == "update_log.bin"@ { Place::Log(b) } else if s == SUBFOLDER_NAME@ { Place::OnDisk(b) } else { Place::Other },
        Place::Comp(b, c) => if s == "impl.cfg"@ { Place::Cfg(b, c) } else { Place::Other },
        _ => Place::Other,
    }
}
pub proof fn lemma_names()
    ensures "backup"@ != "current"@, "update_log.bin"@ != SUBFOLDER_NAME@, "update_log.bin"@ != GLOBAL_STATISTICS_FILE_NAME@, SUBFOLDER_NAME@ != GLOBAL_STATISTICS_FILE_NAME@,
{ reveal_strlit("backup"); reveal_strlit("current"); reveal_strlit("update_log.bin"); reveal_strlit("nodes_diskmap_v1"); reveal_strlit("global_statistics.toml");
    assert("backup"@.len() != "current"@.len()); assert("update_log.bin"@.len() != SUBFOLDER_NAME@.len()); assert("update_log.bin"@.len() != GLOBAL_STATISTICS_FILE_NAME@.len()); assert(SUBFOLDER_NAME@.len() != GLOBAL_STATISTICS_FILE_NAME@.len());
}
#[verifier::external_body]
pub struct PathBuf { x: u8 }
impl PathBuf {
    pub uninterp spec fn view(&self) -> Place;
    #[verifier::external_body]
    pub fn join(&self, s: &str) -> (r: PathBuf) ensures r.view() == joined(self.view(), s@) { unimplemented!() }
    /// component_to_relative_path: different components have different folders
    #[verifier::external_body]
    pub fn join_component(&self, c: &Component) -> (r: PathBuf) ensures self.view() matches Place::Dir(b) ==> r.view() == Place::Comp(b, *c) { unimplemented!() }
    pub fn push(&mut self, s: &str) ensures final(self).view() == joined(old(self).view(), s@) { let x = self.join(s); *self = x; }
    pub fn push_component(&mut self, c: &Component) ensures old(self).view() matches Place::Dir(b) ==> final(self).view() == Place::Comp(b, *c) { let x = self.join_component(c); *self = x; }
    #[verifier::external_body]
    pub fn clone(&self) -> (r: PathBuf) ensures r.view() == self.view() { unimplemented!() }
}
pub fn copy_path(p: &PathBuf) -> (r: PathBuf) ensures r.view() == p.view() { p.clone() }
pub fn copy_path_opt(p: &Option<PathBuf>) -> (r: Option<PathBuf>) ensures r is Some <==> p is Some, r is Some ==> r->0.view() == p->0.view() { match p { Some(x) => Some(x.clone()), None => None } }
#[verifier::external_body]
pub struct File { x: u8 }
impl File {
    pub uninterp spec fn place(&self) -> Place;
    pub uninterp spec fn list(&self) -> Hist;
    pub uninterp spec fn text(&self) -> Seq<char>;
}
#[verifier::external_body]
pub struct TempDir { x: u8 }
impl TempDir {
    #[verifier::external_body]
    pub fn path(&self) -> (r: &PathBuf) ensures r.view() == Place::Other { unimplemented!() }
    #[verifier::external_body]
    pub fn close(self) -> (r: Result<()>) { unimplemented!() }
}
/// a file which does not have its final name yet
#[verifier::external_body]
pub struct NamedTempFile { x: u8 }
impl NamedTempFile {
    /// the changes which are completely written
    pub uninterp spec fn list(&self) -> Option<Hist>;
    #[verifier::external_body]
    pub fn new_in(t: &TempDir) -> (r: Result<NamedTempFile>) { unimplemented!() }
    /// bincode::serialize_into a file: the serialization of an update contains all of its changes (P11 replay, GraphUpdate::serialize)
    #[verifier::external_body]
    pub fn write_updates(&mut self, u: &GraphUpdate) -> (r: Result<()>) ensures r is Ok ==> final(self).list() == Some(u.list()) { unimplemented!() }
    #[verifier::external_body]
    pub fn flush(&mut self) -> (r: Result<()>) ensures final(self).list() == old(self).list() { unimplemented!() }
    /// renaming replaces the old file at once
    #[verifier::external_body]
    pub fn persist(self, p: &PathBuf, fs: &mut Fs) -> (r: Result<()>)
        requires
            p.view() is Log && self.list() is Some && dir_of(old(fs).disk(), p.view()->Log_0) is Some,
            (old(fs).goal())(with_dir(old(fs).disk(), p.view()->Log_0, Some(Dir { log: self.list(), ..dir_of(old(fs).disk(), p.view()->Log_0)->0 }))),
        ensures
            final(fs).goal() == old(fs).goal(),
            r is Err ==> final(fs).disk() == old(fs).disk(),
            r is Ok ==> final(fs).disk() == with_dir(old(fs).disk(), p.view()->Log_0, Some(Dir { log: self.list(), ..dir_of(old(fs).disk(), p.view()->Log_0)->0 })),
    { unimplemented!() }
}
/// the file system below the folder of one corpus. `goal` must be true of every state of the disk, so that the process can end at any time
#[verifier::external_body]
pub struct Fs { x: u8 }
impl Fs {
    pub uninterp spec fn disk(&self) -> Disk;
    pub uninterp spec fn goal(&self) -> spec_fn(Disk) -> bool;
    /// all changes of this folder are allowed
    pub open spec fn free(&self, backup: bool) -> bool { forall|x: Option<Dir>| #[trigger] (self.goal())(with_dir(self.disk(), backup, x)) }
    /// what an operation can do which only changes a free folder
    pub open spec fn only(&self, before: Fs, backup: bool) -> bool { self.goal() == before.goal() && dir_of(self.disk(), !backup) == dir_of(before.disk(), !backup) && (before.free(backup) ==> self.free(backup)) }
    #[verifier::external_body]
    pub fn exists(&self, p: &PathBuf) -> (r: bool)
        ensures p.view() matches Place::Dir(b) ==> r == dir_of(self.disk(), b) is Some, p.view() matches Place::OnDisk(b) ==> r == (dir_of(self.disk(), b) matches Some(x) && x.ondisk is Some),
            p.view() matches Place::Log(b) ==> r == (dir_of(self.disk(), b) matches Some(x) && x.log is Some),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn is_dir(&self, p: &PathBuf) -> (r: bool)
        ensures p.view() matches Place::Dir(b) ==> r == dir_of(self.disk(), b) is Some, p.view() matches Place::OnDisk(b) ==> r == (dir_of(self.disk(), b) matches Some(x) && x.ondisk is Some),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn is_file(&self, p: &PathBuf) -> (r: bool)
        ensures p.view() matches Place::Log(b) ==> r == (dir_of(self.disk(), b) matches Some(x) && x.log is Some),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn read_to_string(&self, p: &PathBuf) -> (r: Result<String>) { unimplemented!() }
    #[verifier::external_body]
    pub fn open(&self, p: &PathBuf) -> (r: Result<File>)
        ensures
            r matches Ok(f) ==> f.place() == p.view() && (p.view() matches Place::Log(b) ==> (dir_of(self.disk(), b) matches Some(x) && x.log == Some(f.list())))
                && (p.view() matches Place::Cfg(b, c) ==> (dir_of(self.disk(), b) matches Some(x) && x.cfgs.dom().contains(c) && x.cfgs[c] == f.text())),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn create_dir_all(&mut self, p: &PathBuf) -> (r: Result<()>)
        requires p.view() matches Place::Dir(b) ==> dir_of(old(self).disk(), b) is Some || old(self).free(b),
        ensures
            final(self).goal() == old(self).goal(),
            match p.view() {
                Place::Dir(b) => {
                    &&& dir_of(old(self).disk(), b) is Some ==> final(self).disk() == old(self).disk()
                    &&& final(self).only(*old(self), b)
                    &&& r is Ok && dir_of(old(self).disk(), b) is None ==> dir_of(final(self).disk(), b) == Some(empty_dir())
                },
                _ => final(self).disk() == old(self).disk(),
            },
    { unimplemented!() }
    #[verifier::external_body]
    pub fn remove_dir_all(&mut self, p: &PathBuf) -> (r: Result<()>)
        requires p.view() matches Place::Dir(b) && old(self).free(b),
        ensures final(self).only(*old(self), p.view()->Dir_0), r is Ok ==> dir_of(final(self).disk(), p.view()->Dir_0) is None,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn remove_dir(&mut self, p: &PathBuf) -> (r: Result<()>)
        requires p.view() is Other,
        ensures final(self).disk() == old(self).disk(), final(self).goal() == old(self).goal(),
    { unimplemented!() }
    /// an atomic operation
    #[verifier::external_body]
    pub fn rename(&mut self, p: &PathBuf, q: &PathBuf) -> (r: Result<()>)
        requires p.view() is Dir && dir_of(old(self).disk(), p.view()->Dir_0) is Some ==> (old(self).goal())(moved(old(self).disk(), p.view(), q.view())), p.view() is Dir && (q.view() is Dir || q.view() is Other),
        ensures
            final(self).goal() == old(self).goal(),
            r is Err ==> final(self).disk() == old(self).disk(),
            r is Ok ==> dir_of(old(self).disk(), p.view()->Dir_0) is Some && final(self).disk() == moved(old(self).disk(), p.view(), q.view()),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn tempdir_in(&mut self, p: &PathBuf) -> (r: Result<TempDir>)
        ensures final(self).disk() == old(self).disk(), final(self).goal() == old(self).goal(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn remove_file(&mut self, p: &PathBuf) -> (r: Result<()>)
        requires
            p.view() is Log && (dir_of(old(self).disk(), p.view()->Log_0) matches Some(x) ==> (old(self).goal())(with_dir(old(self).disk(), p.view()->Log_0, Some(Dir { log: None, ..x })))),
        ensures
            final(self).only(*old(self), p.view()->Log_0),
            r is Err ==> final(self).disk() == old(self).disk(),
            r is Ok ==> (dir_of(old(self).disk(), p.view()->Log_0) matches Some(x) && final(self).disk() == with_dir(old(self).disk(), p.view()->Log_0, Some(Dir { log: None, ..x }))),
    { unimplemented!() }
    /// the configuration file of a component is created and written
    #[verifier::external_body]
    pub fn create(&mut self, p: &PathBuf) -> (r: Result<File>)
        requires p.view() matches Place::Cfg(b, c) && old(self).free(b),
        ensures
            final(self).only(*old(self), p.view()->Cfg_0),
            r matches Ok(f) ==> f.place() == p.view() && (dir_of(old(self).disk(), p.view()->Cfg_0) matches Some(x)
                && dir_of(final(self).disk(), p.view()->Cfg_0) == Some(Dir { cfgs: x.cfgs.insert(p.view()->Cfg_1, Seq::empty()), ..x })),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn write_all(&mut self, f: &mut File, s: &Seqs) -> (r: Result<()>)
        requires old(f).place() matches Place::Cfg(b, c) && old(self).free(b),
        ensures
            final(self).only(*old(self), old(f).place()->Cfg_0),
            r is Ok ==> (dir_of(old(self).disk(), old(f).place()->Cfg_0) matches Some(x)
                && dir_of(final(self).disk(), old(f).place()->Cfg_0) == Some(Dir { cfgs: x.cfgs.insert(old(f).place()->Cfg_1, s.text()), ..x })),
    { unimplemented!() }
    /// a file that is not part of the model
    #[verifier::external_body]
    pub fn write(&mut self, p: PathBuf, s: String) -> (r: Result<()>)
        requires p.view() is Other,
        ensures final(self).disk() == old(self).disk(), final(self).goal() == old(self).goal(),
    { unimplemented!() }
}
/// only the log has changed
pub open spec fn log_only(d: Disk, e: Disk) -> bool {
    in_backup(e) == in_backup(d) && (rec(d) matches Some(x) && rec(e) matches Some(y) && x == (Dir { log: x.log, ..y }))
}
pub open spec fn moved(d: Disk, p: Place, q: Place) -> Disk {
    let x = dir_of(d, p->Dir_0);
    let e = with_dir(d, p->Dir_0, None);
    if q is Dir { with_dir(e, q->Dir_0, x) } else { e }
}
/// the last part of `only` follows from the others
pub proof fn lemma_only(a: Fs, b: Fs, backup: bool)
    requires b.goal() == a.goal(), dir_of(b.disk(), !backup) == dir_of(a.disk(), !backup),
    ensures b.only(a, backup),
{
    assert forall|x: Option<Dir>| a.free(backup) implies #[trigger] (b.goal())(with_dir(b.disk(), backup, x)) by { assert(with_dir(b.disk(), backup, x) == with_dir(a.disk(), backup, x)); }
}
/// the name of an implementation
#[verifier::external_body]
pub struct Seqs { x: u8 }
impl Seqs { pub uninterp spec fn text(&self) -> Seq<char>; }

// ---- contracts assumed for dependencies ---------------------------------------------------------
#[verifier::external_body]
pub struct Gs { x: u8 }
impl Gs {
    pub uninterp spec fn view(&self) -> Stored;
    #[verifier::external_body]
    pub fn clone(&self) -> (r: Gs) ensures r.view() == self.view() { unimplemented!() }
    #[verifier::external_body]
    pub fn serialization_id(&self) -> (r: Seqs) ensures r.text() == self.view().id { unimplemented!() }
    /// storages are written completely and read again as they were written (P03)
    #[verifier::external_body]
    pub fn save_to(&self, p: &PathBuf, fs: &mut Fs) -> (r: Result<()>)
        requires p.view() matches Place::Comp(b, c) && old(fs).free(b),
        ensures
            final(fs).only(*old(fs), p.view()->Comp_0),
            r is Ok ==> (dir_of(old(fs).disk(), p.view()->Comp_0) matches Some(x)
                && dir_of(final(fs).disk(), p.view()->Comp_0) == Some(Dir { comps: x.comps.insert(p.view()->Comp_1, self.view()), ..x })),
    { unimplemented!() }
}
/// registry::deserialize
#[verifier::external_body]
pub fn deserialize_gs(name: &Seqs, p: &PathBuf, fs: &Fs) -> (r: Result<Gs>)
    ensures r matches Ok(g) ==> (p.view() matches Place::Comp(b, c) ==> (dir_of(fs.disk(), b) matches Some(x) && x.comps.dom().contains(c) && (x.comps[c].id == name.text() ==> g.view() == x.comps[c]))),
{ unimplemented!() }
#[verifier::external_body]
pub fn read_text(f: &File) -> (r: Result<Seqs>) ensures r matches Ok(s) ==> s.text() == f.text() { unimplemented!() }
#[verifier::external_body]
pub struct NodeAnnos { x: u8 }
impl NodeAnnos {
    pub uninterp spec fn view(&self) -> Labels;
    pub uninterp spec fn disk_format(&self) -> bool;
    #[verifier::external_body]
    pub fn new_memory() -> (r: NodeAnnos) ensures r.view() == Labels::empty(), !r.disk_format() { unimplemented!() }
    #[verifier::external_body]
    pub fn open_ondisk(p: PathBuf, fs: &Fs) -> (r: Result<NodeAnnos>)
        ensures r matches Ok(a) ==> a.disk_format() && (p.view() matches Place::OnDisk(b) ==> (dir_of(fs.disk(), b) matches Some(x) && x.ondisk == Some(a.view()))),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn load_annotations_from(&mut self, p: &PathBuf, fs: &Fs) -> (r: Result<()>)
        ensures
            final(self).disk_format() == old(self).disk_format(),
            r is Ok && !old(self).disk_format() ==> (p.view() matches Place::Dir(b) ==> (dir_of(fs.disk(), b) matches Some(x) && x.memory == Some(final(self).view()))),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn save_annotations_to(&self, p: &PathBuf, fs: &mut Fs) -> (r: Result<()>)
        requires p.view() matches Place::Dir(b) && old(fs).free(b),
        ensures
            final(fs).only(*old(fs), p.view()->Dir_0),
            r is Ok ==> (dir_of(old(fs).disk(), p.view()->Dir_0) matches Some(x)
                && dir_of(final(fs).disk(), p.view()->Dir_0) == Some(if self.disk_format() { Dir { ondisk: Some(self.view()), ..x } } else { Dir { memory: Some(self.view()), ..x } })),
    { unimplemented!() }
}
/// BTreeMap<Component, Option<Arc<dyn GraphStorage>>>
#[verifier::external_body]
pub struct Components { x: u8 }
impl Components {
    pub uninterp spec fn view(&self) -> Map<Component, Option<Gs>>;
    #[verifier::external_body]
    pub fn entries(&self) -> (r: Vec<(Component, Option<Gs>)>)
        ensures
            forall|i: int| #![trigger r@[i]] 0 <= i < r@.len() ==> self.view().dom().contains(r@[i].0) && self.view()[r@[i].0] == r@[i].1,
            forall|c: Component| #![trigger self.view().dom().contains(c)] self.view().dom().contains(c) ==> exists|i: int| 0 <= i < r@.len() && (#[trigger] r@[i]).0 == c,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn clear(&mut self) ensures final(self).view() == Map::<Component, Option<Gs>>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn all_unloaded(s: Found) -> (r: Components)
        ensures r.view().dom() == s.view(), forall|c: Component| #![trigger r.view()[c]] s.view().contains(c) ==> r.view()[c] is None,
    { unimplemented!() }
}
#[verifier::external_body]
pub struct Found { x: u8 }
impl Found { pub uninterp spec fn view(&self) -> Set<Component>; }
/// find_components_from_disk lists the folders with a configuration file
#[verifier::external_body]
pub fn find_components_from_disk(p: &PathBuf, fs: &Fs) -> (r: Result<Found>)
    ensures r matches Ok(s) ==> (p.view() matches Place::Dir(b) ==> (dir_of(fs.disk(), b) matches Some(x) && s.view() == x.cfgs.dom())),
{ unimplemented!() }
#[verifier::external_body]
pub struct Guard { x: u8 }
#[verifier::external_body]
pub struct Persistance { x: u8 }
impl Persistance {
    #[verifier::external_body]
    pub fn lock(&self) -> (r: Result<Guard>) { unimplemented!() }
}
#[verifier::external_body]
pub struct Statistics { x: u8 }
#[verifier::external_body]
pub fn parse_statistics(s: &String) -> (r: Result<Statistics>) { unimplemented!() }
#[verifier::external_body]
pub fn print_statistics(s: &Statistics) -> (r: Result<String>) { unimplemented!() }
/// a list of changes, numbered in the order in which they were added
#[verifier::external_body]
pub struct GraphUpdate { x: u8 }
impl GraphUpdate {
    pub uninterp spec fn events(&self) -> Seq<(u64, UpdateEvent)>;
    pub open spec fn list(&self) -> Hist { untag(self.events()) }
    pub proof fn lemma_untagged(&self) ensures untag(self.list()) == self.list() { assert(untag(self.list()) =~= self.list()); }
    #[verifier::external_body]
    pub fn iter(&self) -> (r: Result<Vec<Result<(u64, UpdateEvent)>>>)
        ensures r matches Ok(v) ==> v@.len() == self.list().len() && forall|i: int| #![trigger v@[i]] 0 <= i < v@.len() && v@[i] is Ok ==> v@[i]->Ok_0.1 == self.list()[i].1,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn add_event(&mut self, e: UpdateEvent) -> (r: Result<()>) ensures r is Ok ==> final(self).list() == old(self).list().push((0u64, e)) { unimplemented!() }
    #[verifier::external_body]
    pub fn read(f: File) -> (r: Result<GraphUpdate>) ensures r matches Ok(u) ==> u.list() == f.list() { unimplemented!() }
}

// ---- the code ---------------------------------------------------------------------------------
//@item src=core/src/graph/mod.rs item="struct Graph"
//@rewrite Graph<CT: ComponentType> => Graph
//@rewrite node_annos: Box<dyn NodeAnnotationStorage> => pub node_annos: NodeAnnos
//@rewrite (?m)^    location: => pub location:
//@rewrite components: BTreeMap<Component<CT>, Option<Arc<dyn GraphStorage>>> => pub components: Components
//@rewrite (?m)^    current_change_id: => pub current_change_id:
//@rewrite background_persistance: Arc<Mutex<\(\)>> => pub background_persistance: Persistance
//@rewrite Option<CT::GlobalStatistics> => Option<Statistics>
//@rewrite (?m)^    disk_based: => pub disk_based:
//@fn src=core/src/graph/mod.rs item=load_component_from_disk
//@rewrite? component_path: &Path => component_path: &PathBuf, fs: &Fs
//@rewrite? Arc<dyn GraphStorage> => Gs
//@rewrite PathBuf::from\( => copy_path(
//@rewrite? std::fs::File::open\((\w+)\) => fs.open(&${1})
//@rewrite? let mut f_impl => let f_impl
//@rewrite let mut impl_name = String::new\(\);\s*f_impl\.read_to_string\(&mut impl_name\)\?; => let impl_name = read_text(&f_impl)?;
//@rewrite? registry::deserialize\(&impl_name, component_path\) => deserialize_gs(&impl_name, component_path, fs)
//@spec
    ensures ret matches Ok(g) ==> (component_path.view() matches Place::Comp(b, c) ==>
        (dir_of(fs.disk(), b) matches Some(x) && x.comps.dom().contains(c) && x.cfgs.dom().contains(c) && (x.comps[c].id == x.cfgs[c] ==> g.view() == x.comps[c]))),
//@end
//@fn src=core/src/graph/mod.rs item=component_path
//@rewrite? <CT: ComponentType> =>
//@rewrite? Component<CT> => Component
//@rewrite (?s)(c: &Component),? => ${1}, fs: &Fs
//@rewrite PathBuf::from\( => copy_path(
//@rewrite? (\w+)\.exists\(\) => fs.exists(&${1})
//@rewrite? push\(component_to_relative_path\((\w+)\)\) => push_component(${1})
//@spec
    ensures ret is Some <==> location is Some, location matches Some(l) && l.view() is Root ==> ret->0.view() == Place::Comp(in_backup(fs.disk()), *c),
//@at fn_start
    proof { lemma_names(); }
//@end
/// `.map(|p| load_component_from_disk(&p)).transpose()`
pub fn load_component_option(p: Option<PathBuf>, fs: &Fs) -> (r: Result<Option<Gs>>)
    ensures
        r matches Ok(o) ==> (o is Some <==> p is Some),
        r matches Ok(Some(g)) ==> (p->0.view() matches Place::Comp(b, c) ==> (dir_of(fs.disk(), b) matches Some(x) && x.comps.dom().contains(c) && x.cfgs.dom().contains(c) && (x.comps[c].id == x.cfgs[c] ==> g.view() == x.comps[c]))),
{ match p { Some(p) => match load_component_from_disk(&p, fs) { Ok(g) => Ok(Some(g)), Err(e) => Err(e) }, None => Ok(None) } }
pub open spec fn unopt(m: Map<Component, Option<Gs>>, c: Component, d: Disk) -> Stored { match m[c] { Some(g) => g.view(), None => rec(d)->0.comps[c] } }
/// the first k components are stored
pub open spec fn saved(x: Dir, m: Map<Component, Option<Gs>>, d: Disk, all: Seq<(Component, Option<Gs>)>, k: int) -> bool {
    &&& 0 <= k <= all.len()
    &&& forall|i: int| #![trigger all[i]] 0 <= i < k ==> x.cfgs.dom().contains(all[i].0) && x.comps.dom().contains(all[i].0) && x.comps[all[i].0] == unopt(m, all[i].0, d) && x.cfgs[all[i].0] == x.comps[all[i].0].id
    &&& forall|i: int| #![trigger all[i]] 0 <= i < all.len() ==> m.dom().contains(all[i].0) && m[all[i].0] == all[i].1
    &&& forall|c: Component| #![trigger m.dom().contains(c)] m.dom().contains(c) ==> exists|i: int| 0 <= i < all.len() && (#[trigger] all[i]).0 == c
}
pub open spec fn collected(l: Seq<Component>, m: Map<Component, Option<Gs>>, all: Seq<(Component, Option<Gs>)>, k: int) -> bool {
    &&& 0 <= k <= all.len()
    &&& forall|i: int| #![trigger all[i]] 0 <= i < k && all[i].1 is None ==> l.contains(all[i].0)
    &&& forall|i: int| #![trigger all[i]] 0 <= i < all.len() ==> m.dom().contains(all[i].0) && m[all[i].0] == all[i].1
    &&& forall|c: Component| #![trigger m.dom().contains(c)] m.dom().contains(c) ==> exists|i: int| 0 <= i < all.len() && (#[trigger] all[i]).0 == c
}
#[verifier::external_body]
pub fn clone_component(c: &Component) -> (r: Component) ensures r == *c { unimplemented!() }
/// all components are in memory
pub open spec fn all_loaded(m: Map<Component, Option<Gs>>) -> bool { forall|c: Component| #![trigger m[c]] m.dom().contains(c) ==> m[c] is Some }
impl Graph {
    pub open spec fn loaded(&self) -> bool { all_loaded(self.components.view()) }
    /// components which are not loaded are in the folder of the graph
    pub open spec fn holds(&self, d: Disk) -> bool {
        forall|c: Component| #![trigger self.components.view()[c]] self.components.view().dom().contains(c) && self.components.view()[c] is None ==>
            (self.location matches Some(l) && l.view() is Root) && (rec(d) matches Some(x) && x.cfgs.dom().contains(c) && x.comps.dom().contains(c) && x.cfgs[c] == x.comps[c].id)
    }
    /// what the graph contains, with the components which are still on the disk
    pub open spec fn world(&self, d: Disk) -> World {
        World {
            labels: self.node_annos.view(),
            edges: |c: Component| if self.components.view().dom().contains(c) { unopt(self.components.view(), c, d).edges } else { Set::<Edge>::empty() },
            elabels: |c: Component| if self.components.view().dom().contains(c) { unopt(self.components.view(), c, d).labels } else { EdgeLabels::empty() },
        }
    }
    /// all components are stored in the folder
    pub open spec fn is_copy(&self, x: Dir, d: Disk) -> bool {
        &&& x.cfgs.dom() == self.components.view().dom() && readable(x)
        &&& forall|c: Component| #![trigger x.comps[c]] x.cfgs.dom().contains(c) ==> x.comps[c] == unopt(self.components.view(), c, d)
    }
    /// what a graph contains does not change when the folder is written again
    pub open spec fn unchanged(&self, d: Disk, e: Disk) -> bool { rec(e) == rec(d) || (rec(e) matches Some(x) && self.is_copy(x, d)) }
    pub proof fn lemma_unchanged(&self, d: Disk, e: Disk)
        requires self.unchanged(d, e), self.holds(d),
        ensures self.holds(e), self.world(e) == self.world(d),
    {
        assert(self.world(e).edges =~= self.world(d).edges);
        assert(self.world(e).elabels =~= self.world(d).elabels);
    }
    /// unit `updates`
    #[verifier::external_body]
    pub fn apply_update_in_memory(&mut self, u: &mut GraphUpdate, stats: bool) -> (r: Result<()>)
        requires old(self).loaded(),
        ensures
            final(u).list() == old(u).list(), final(self).location == old(self).location, final(self).loaded(),
            r is Ok ==> forall|d: Disk| #![trigger final(self).world(d)] applied(old(self).world(d), old(u).list(), final(self).world(d)),
    { unimplemented!() }
    /// load_component_from_disk (below) for all given components which are not loaded
    #[verifier::external_body]
    pub fn ensure_loaded_parallel(&mut self, l: &Vec<Component>, fs: &Fs) -> (r: Result<Vec<Component>>)
        requires old(self).holds(fs.disk()),
        ensures
            final(self).location == old(self).location, final(self).node_annos == old(self).node_annos, final(self).holds(fs.disk()),
            final(self).components.view().dom() == old(self).components.view().dom(),
            r is Ok ==> forall|c: Component| #![trigger final(self).components.view()[c]] old(self).components.view().dom().contains(c) ==>
                if l@.contains(c) && old(self).components.view()[c] is None { final(self).components.view()[c] is Some && unopt(final(self).components.view(), c, fs.disk()) == unopt(old(self).components.view(), c, fs.disk()) }
                else { final(self).components.view()[c] == old(self).components.view()[c] },
    { unimplemented!() }
#[verifier::loop_isolation(false)]
//@fn src=core/src/graph/mod.rs item=Graph::ensure_loaded_all
//@rewrite &mut self => &mut self, fs: &Fs
//@rewrite Vec<_> = Vec::with_capacity\(self\.components\.len\(\)\) => Vec<Component> = Vec::new()
//@rewrite for \(c, gs\) in ([\w/*: ]*)&self\.components => for ce in ${1}self.components.entries()
//@rewrite? c\.clone\(\) => clone_component(c)
//@rewrite? ensure_loaded_parallel\(&(\w+)\) => ensure_loaded_parallel(&${1}, fs)
//@spec
        requires old(self).holds(fs.disk()),
        ensures
            final(self).location == old(self).location, final(self).node_annos == old(self).node_annos, final(self).holds(fs.disk()),
            ret is Ok ==> final(self).loaded() && final(self).world(fs.disk()) == old(self).world(fs.disk()),
//@forname 0 it
//@at loop_start 0
    let (c, gs) = (&ce.0, &ce.1);
    let ghost b4 = components_to_load@;
//@at loop_end 0
    proof { 
        assert forall|i: int| #![trigger it.seq()[i]] 0 <= i < it.index() + 1 && it.seq()[i].1 is None implies components_to_load@.contains(it.seq()[i].0) by {
            if i < it.index() { let k = choose|k: int| 0 <= k < b4.len() && b4[k] == it.seq()[i].0; assert(components_to_load@[k] == b4[k]); }
            else { assert(components_to_load@[components_to_load@.len() - 1] == it.seq()[i].0); }
        }
    }
//@loop 0
    invariant
        *self == *old(self), collected(components_to_load@, self.components.view(), it.seq(), it.index() as int),
//@at after_loop 0
    let ghost g0 = *self;
    proof {
        assert(exists|all: Seq<(Component, Option<Gs>)>| #[trigger] collected(components_to_load@, self.components.view(), all, all.len() as int));
        let all = choose|all: Seq<(Component, Option<Gs>)>| #[trigger] collected(components_to_load@, self.components.view(), all, all.len() as int);
    }
//@at fn_end
    proof {
        assert(self.world(fs.disk()).edges =~= g0.world(fs.disk()).edges);
        assert(self.world(fs.disk()).elabels =~= g0.world(fs.disk()).elabels);
    }
//@end
//@fn src=core/src/graph/mod.rs item=Graph::clear
//@rewrite? Box::new\(crate::annostorage::inmemory::AnnoStorageImpl::new\(\)\) => NodeAnnos::new_memory()
//@spec
    ensures final(self).components.view() == Map::<Component, Option<Gs>>::empty(), final(self).location == old(self).location,
//@end
#[verifier::loop_isolation(false)]
//@fn src=core/src/graph/mod.rs item=Graph::internal_save
//@rewrite location: &Path => location: &PathBuf, fs: &mut Fs
//@rewrite PathBuf::from\(&?(\w+)\) => copy_path(&${1})
//@rewrite? std::fs::create_dir_all\(&(\w+)\) => fs.create_dir_all(&${1})
//@rewrite? save_annotations_to\(&location\) => save_annotations_to(&location, fs)
//@rewrite for \(c, e\) in ([\w/*: ]*)&self\.components => for ce in ${1}self.components.entries()
//@rewrite? component_path\(&self\.location, c\)\s*\.map\(\|p\| load_component_from_disk\(&p\)\)\s*\.transpose\(\)\? => load_component_option(component_path(&self.location, c, fs), fs)?
//@rewrite? \.join\(component_to_relative_path\(c\)\) => .join_component(c)
//@rewrite? data\.save_to\(&dir\) => data.save_to(&dir, fs)
//@rewrite? std::fs::File::create\((\w+)\) => fs.create(&${1})
//@rewrite? f_cfg\.write_all\(impl_name\.as_bytes\(\)\) => fs.write_all(&mut f_cfg, &impl_name)
//@rewrite? toml::to_string\(s\) => print_statistics(s)
//@rewrite? std::fs::write\( => fs.write(
//@rewrite? log_path\.is_file\(\) => fs.is_file(&log_path)
//@rewrite? std::fs::remove_file\(log_path\) => fs.remove_file(&log_path)
//@spec
    requires
        location.view() == Place::Dir(false), old(fs).free(false), self.holds(old(fs).disk()), self.loaded() || in_backup(old(fs).disk()),
        old(fs).disk().current matches Some(x) ==> x.cfgs.dom().subset_of(self.components.view().dom()) && (self.node_annos.disk_format() || x.ondisk is None),
    ensures
        final(fs).only(*old(fs), false),
        ret is Ok ==> (final(fs).disk().current matches Some(x) && readable(x) && x.log is None && content(x) == self.world(old(fs).disk()) && self.is_copy(x, old(fs).disk())),
//@at fn_start
    proof { lemma_names(); }
    let ghost d0 = fs.disk();
//@at before_loop 0
    let ghost y = fs.disk().current->0;
//@forname 0 it
//@loop 0
    invariant
        fs.only(*old(fs), false), fs.free(false), fs.disk().current matches Some(x) && x.memory == y.memory && x.ondisk == y.ondisk && x.cfgs.dom().subset_of(self.components.view().dom()) && saved(x, self.components.view(), d0, it.seq(), it.index() as int),
        location.view() == Place::Dir(false),
//@at loop_start 0
    let (c, e) = (&ce.0, &ce.1);
    let ghost f1 = *fs;
//@at after_loop 0
    let ghost x1 = fs.disk().current->0;
    proof {
        let m = self.components.view();
        assert(exists|all: Seq<(Component, Option<Gs>)>| #[trigger] saved(x1, m, d0, all, all.len() as int));
        let all = choose|all: Seq<(Component, Option<Gs>)>| #[trigger] saved(x1, m, d0, all, all.len() as int);
        assert(x1.cfgs.dom() =~= m.dom());
        let x2 = Dir { log: None, ..x1 };
        assert(content(x2).edges =~= self.world(d0).edges);
        assert(content(x2).elabels =~= self.world(d0).elabels);
        assert(content(x1).edges =~= self.world(d0).edges);
        assert(content(x1).elabels =~= self.world(d0).elabels);
    }
//@at fn_end
    proof { assert(fs.disk().current->0 == Dir { log: None, ..x1 }); }
//@end

    /// the files belong to this graph, the changes `h` of `w` are stored and may be stored in any other safe way
    pub open spec fn at_home(&self) -> bool { self.location matches Some(l) ==> l.view() is Root }
#[verifier::loop_isolation(false)]
//@fn src=core/src/graph/mod.rs item=Graph::internal_open
//@rewrite location: &Path => location: &PathBuf, fs: &mut Fs, Ghost(w): Ghost<World>, Ghost(h): Ghost<Hist>
//@rewrite? (\w+)\.exists\(\) => fs.exists(&${1})
//@rewrite? (\w+)\.is_dir\(\) => fs.is_dir(&${1})
//@rewrite? (\w+)\.is_file\(\) => fs.is_file(&${1})
//@rewrite? std::fs::read_to_string\((\w+)\) => fs.read_to_string(&${1})
//@rewrite? toml::from_str\( => parse_statistics(
//@rewrite? crate::annostorage::ondisk::SUBFOLDER_NAME => SUBFOLDER_NAME
//@rewrite? crate::annostorage::ondisk::AnnoStorageImpl::new\(Some\((\w+)\)\) => NodeAnnos::open_ondisk(${1}, fs)
//@rewrite? crate::annostorage::inmemory::AnnoStorageImpl::new\(\) => NodeAnnos::new_memory()
//@rewrite? load_annotations_from\(&dir2load\) => load_annotations_from(&dir2load, fs)
//@rewrite? Box::new\((\w+)\) => ${1}
//@rewrite? find_components_from_disk\(&dir2load\)\?\s*\.into_iter\(\)\s*\.map\(\|c\| \(c, None\)\)\s*\.collect\(\) => Components::all_unloaded(find_components_from_disk(&dir2load, fs)?)
//@rewrite? ensure_loaded_all\(\) => ensure_loaded_all(fs)
//@rewrite? std::fs::File::open\(&(\w+)\) => fs.open(&${1})
//@rewrite? bincode::deserialize_from\((\w+)\) => GraphUpdate::read(${1})
//@rewrite? if (\w+) \| (\w+) \{ => if ${1} || ${2} {
//@rewrite? &mut update, true, \|_\| \{\} => &mut update, true
//@rewrite? if load_from_backup \{ => proof { if x0.log is Some { lemma_applied_twice(w, a0, content(x0), log_of(x0), self.world(d0)); } else { assert(h =~= a0); } assert(applied(w, h, self.world(d0))); } if load_from_backup {
//@rewrite? std::fs::remove_dir_all\( => fs.remove_dir_all(
//@rewrite? std::fs::remove_dir\( => fs.remove_dir(
//@rewrite? std::fs::rename\( => fs.rename(
//@rewrite? self\.internal_save\(&([^;]*)\)\? => self.internal_save(&${1}, fs)?
//@rewrite (?s)tempfile::Builder::new\(\)\s*\.prefix\("[^"]*"\)\s*\.tempdir_in\(location\) => fs.tempdir_in(location)
//@spec
    requires
        location.view() is Root, old(self).location matches Some(l) && l.view() is Root,
        safe(old(fs).disk(), w, h), forall|d: Disk| safe(d, w, h) ==> #[trigger] (old(fs).goal())(d),
    ensures
        final(self).location == old(self).location, final(fs).goal() == old(fs).goal(),
        safe(final(fs).disk(), w, h),
        ret is Ok ==> final(self).holds(final(fs).disk()) && applied(w, h, final(self).world(final(fs).disk())),
//@at fn_start
    proof { lemma_names(); }
    let ghost d0 = fs.disk();
    let ghost x0 = rec(d0)->0;
    let ghost a0 = choose|a: Hist| #[trigger] applied(w, a, content(x0)) && h == a + log_of(x0);
    proof { lemma_free_current(*fs, w, h); }
//@at? after_call find_components_from_disk 0
    proof {
        assert(self.world(d0).edges =~= content(x0).edges);
        assert(self.world(d0).elabels =~= content(x0).elabels);
    }
//@at? before_call internal_save 0
    let ghost d1 = fs.disk();
//@at? after_call internal_save 0
    proof {
        assert(self.world(d1).edges =~= self.world(d0).edges);
        assert(self.world(d1).elabels =~= self.world(d0).elabels);
        let e = with_dir(fs.disk(), true, None);
        assert(h + log_of(e.current->0) =~= h);
        assert(applied(w, h, content(e.current->0)));
        assert(safe(e, w, h));
        assert(self.world(e).edges =~= self.world(d0).edges);
        assert(self.world(e).elabels =~= self.world(d0).elabels);
    }
//@end
//@fn src=core/src/graph/mod.rs item=Graph::open
//@rewrite location: &Path => location: &PathBuf, fs: &mut Fs, Ghost(w): Ghost<World>, Ghost(h): Ghost<Hist>
//@rewrite? location\.to_path_buf\(\) => location.clone()
//@rewrite? internal_open\(location\) => internal_open(location, fs, Ghost(w), Ghost(h))
//@spec
    requires
        location.view() is Root, safe(old(fs).disk(), w, h), forall|d: Disk| safe(d, w, h) ==> #[trigger] (old(fs).goal())(d),
    ensures
        final(fs).goal() == old(fs).goal(), safe(final(fs).disk(), w, h),
        ret is Ok ==> final(self).at_home() && final(self).location is Some && final(self).holds(final(fs).disk()) && applied(w, h, final(self).world(final(fs).disk())),
//@end
//@fn src=core/src/graph/mod.rs item=Graph::import
//@rewrite location: &Path => location: &PathBuf, fs: &mut Fs, Ghost(w): Ghost<World>, Ghost(h): Ghost<Hist>
//@rewrite? location\.to_path_buf\(\) => location.clone()
//@rewrite? internal_open\(location\) => internal_open(location, fs, Ghost(w), Ghost(h))
//@rewrite? ensure_loaded_all\(\) => ensure_loaded_all(fs)
//@spec
    requires
        location.view() is Root, safe(old(fs).disk(), w, h), forall|d: Disk| safe(d, w, h) ==> #[trigger] (old(fs).goal())(d),
    ensures
        final(fs).goal() == old(fs).goal(), safe(final(fs).disk(), w, h),
        ret is Ok ==> final(self).location is None && final(self).loaded() && applied(w, h, final(self).world(final(fs).disk())),
//@end
/// the components may be at another location, `home`
//@fn src=core/src/graph/mod.rs item=Graph::save_to
//@rewrite location: &Path => location: &PathBuf, home: &Fs, fs: &mut Fs
//@rewrite? ensure_loaded_all\(\) => ensure_loaded_all(home)
//@rewrite? self\.internal_save\(&location\.join\("(\w+)"\)\) => self.internal_save(&location.join("${1}"), fs)
//@spec
    requires
        location.view() is Root, old(self).holds(home.disk()), old(fs).free(false),
        old(fs).disk().current matches Some(x) ==> x.cfgs.dom() == Set::<Component>::empty() && x.ondisk is None,
    ensures
        final(fs).only(*old(fs), false), final(self).location == old(self).location,
        ret is Ok ==> (final(fs).disk().current matches Some(x) && readable(x) && x.log is None && content(x) == old(self).world(home.disk())) && final(self).world(home.disk()) == old(self).world(home.disk()),
//@at fn_start
    proof { lemma_names(); }
    let ghost w1 = self.world(home.disk());
//@at? before_call internal_save 0
    proof {
        assert(self.world(fs.disk()).edges =~= self.world(home.disk()).edges);
        assert(self.world(fs.disk()).elabels =~= self.world(home.disk()).elabels);
    }
//@end
//@fn src=core/src/graph/mod.rs item=Graph::persist_to
//@rewrite location: &Path => location: &PathBuf, home: &Fs, fs: &mut Fs
//@rewrite? location\.to_path_buf\(\) => location.clone()
//@rewrite? ensure_loaded_all\(\) => ensure_loaded_all(home)
//@rewrite? self\.internal_save\(&location\.join\("(\w+)"\)\) => self.internal_save(&location.join("${1}"), fs)
//@spec
    requires
        location.view() is Root, old(self).holds(home.disk()), old(fs).free(false),
        old(fs).disk().current matches Some(x) ==> x.cfgs.dom() == Set::<Component>::empty() && x.ondisk is None,
    ensures
        final(fs).only(*old(fs), false),
        ret is Ok ==> (final(fs).disk().current matches Some(x) && readable(x) && x.log is None && content(x) == old(self).world(home.disk()))
            && final(self).location is Some && final(self).at_home() && final(self).loaded() && final(self).world(home.disk()) == old(self).world(home.disk()),
//@at fn_start
    proof { lemma_names(); }
//@at? before_call internal_save 0
    proof {
        assert(self.world(fs.disk()).edges =~= self.world(home.disk()).edges);
        assert(self.world(fs.disk()).elabels =~= self.world(home.disk()).elabels);
    }
//@end
#[verifier::loop_isolation(false)]
//@fn src=core/src/graph/mod.rs item=Graph::internal_save_with_backup
//@rewrite location: &Path => location: &PathBuf, fs: &mut Fs, Ghost(w): Ghost<World>, Ghost(h): Ghost<Hist>
//@rewrite? (\w+)\.exists\(\) => fs.exists(&${1})
//@rewrite? std::fs::remove_dir_all\( => fs.remove_dir_all(
//@rewrite? std::fs::remove_dir\( => fs.remove_dir(
//@rewrite? std::fs::rename\( => fs.rename(
//@rewrite? self\.internal_save\(&([^;]*)\)\? => self.internal_save(&${1}, fs)?
//@rewrite (?s)tempfile::Builder::new\(\)\s*\.prefix\("[^"]*"\)\s*\.tempdir_in\(location\) => fs.tempdir_in(location)
//@spec
    requires
        location.view() is Root, self.holds(old(fs).disk()), applied(w, h, self.world(old(fs).disk())),
        safe(old(fs).disk(), w, h), forall|d: Disk| safe(d, w, h) ==> #[trigger] (old(fs).goal())(d),
    ensures
        final(fs).goal() == old(fs).goal(), safe(final(fs).disk(), w, h),
        ret is Ok ==> !in_backup(final(fs).disk()) && final(fs).disk().current->0.log is None,
        self.unchanged(old(fs).disk(), final(fs).disk()),
//@at fn_start
    proof { lemma_names(); }
    let ghost d0 = fs.disk();
    let ghost m = Disk { current: None, backup: d0.current };
    proof {
        if !in_backup(d0) { assert(rec(m) == rec(d0)); assert(safe(m, w, h)); assert(moved(d0, Place::Dir(false), Place::Dir(true)) == m); }
        lemma_free_current(*fs, w, h);
    }
//@at? before_call internal_save 0
    let ghost d1 = fs.disk();
    proof {
        assert(rec(d1) == rec(d0));
        assert(safe(d1, w, h));
        lemma_free_current(*fs, w, h);
        self.lemma_unchanged(d0, d1);
    }
//@at? after_call internal_save 0
    proof {
        let e = with_dir(fs.disk(), true, None);
        assert(h + log_of(e.current->0) =~= h);
        assert(applied(w, h, content(e.current->0)));
        assert(safe(e, w, h));
        assert(rec(fs.disk()) == rec(d0));
        assert(safe(fs.disk(), w, h));
    }
//@end
//@fn src=core/src/graph/mod.rs item=Graph::background_sync_wal_updates
//@rewrite? \(&self\) => (&self, fs: &mut Fs, Ghost(w): Ghost<World>, Ghost(h): Ghost<Hist>)
//@rewrite? self\.internal_save_with_backup\(location\) => self.internal_save_with_backup(location, fs, Ghost(w), Ghost(h))
//@spec
    requires
        self.at_home(), self.holds(old(fs).disk()), applied(w, h, self.world(old(fs).disk())),
        safe(old(fs).disk(), w, h), forall|d: Disk| safe(d, w, h) ==> #[trigger] (old(fs).goal())(d),
    ensures
        final(fs).goal() == old(fs).goal(), safe(final(fs).disk(), w, h), self.unchanged(old(fs).disk(), final(fs).disk()),
//@end
    /// states in which the changes `h`, or `h` and then `u`, are stored
    pub open spec fn stores(fs: Fs, w: World, h: Hist, u: Hist) -> bool {
        &&& safe(fs.disk(), w, h)
        &&& forall|d: Disk| safe(d, w, h) || safe(d, w, h + u) ==> #[trigger] (fs.goal())(d)
    }
/// the closure in `persist_updates` which writes the log
#[verifier::loop_isolation(false)]
//@fn src=core/src/graph/mod.rs item=Graph::persist_updates
//@rewrite fn persist_updates<F> => fn log_updates
//@rewrite (?s)where\s+F: Fn\(&str\),? =>
//@rewrite (?s)&mut self,\s+u: &mut GraphUpdate,.*progress_callback: F,? => &self, location: PathBuf, u: &mut GraphUpdate, fs: &mut Fs, Ghost(w): Ghost<World>, Ghost(h): Ghost<Hist>
//@rewrite (?s)if let Some\(location\) = self\.location\.clone\(\) \{.*?apply_update_result\.and_then\(\|_\| \{ =>
//@rewrite (?s)Ok\(\(\)\)\s*\}\);.*$ => Ok(()) }
//@rewrite? (\w+)\.is_dir\(\) => fs.is_dir(&${1})
//@rewrite? (\w+)\.is_file\(\) => fs.is_file(&${1})
//@rewrite? std::fs::create_dir_all\( => fs.create_dir_all(
//@rewrite? tempfile::tempdir_in\(&(\w+)\) => fs.tempdir_in(&${1})
//@rewrite? tempfile::NamedTempFile => NamedTempFile
//@rewrite? std::io::BufReader::new\(std::fs::File::open\(&(\w+)\)\?\) => fs.open(&${1})?
//@rewrite? bincode::deserialize_from\((\w+)\) => GraphUpdate::read(${1})
//@rewrite for event in ([\w/*: ]*)u\.iter\(\)\? => for event in ${1}(u.iter()?)
//@rewrite? bincode::serialize_into\(temporary_disk_file\.as_file\(\), &u\) => temporary_disk_file.write_updates(u)
//@rewrite? bincode::serialize_into\(temporary_disk_file\.as_file\(\), &(\w+)\) => temporary_disk_file.write_updates(&${1})
//@rewrite? progress_callback\("[^"]*"\); =>
//@rewrite? persist\(&log_path\) => persist(&log_path, fs)
//@spec
    requires location.view() is Root, Self::stores(*old(fs), w, h, old(u).list()),
    ensures
        final(fs).goal() == old(fs).goal(), final(u).list() == old(u).list(),
        ret is Err ==> final(fs).disk() == old(fs).disk(),
        ret is Ok ==> safe(final(fs).disk(), w, h + old(u).list()) && log_only(old(fs).disk(), final(fs).disk()),
//@forname 0 it
//@loop 0
    invariant
        fs.disk() == d0, fs.goal() == old(fs).goal(), u.list() == old(u).list(),
        it.seq().len() == u.list().len(), forall|i: int| #![trigger it.seq()[i]] 0 <= i < it.seq().len() && it.seq()[i] is Ok ==> it.seq()[i]->Ok_0.1 == u.list()[i].1,
        all_updates.list() == log_of(x0) + untag(u.list()).take(it.index() as int),
//@at loop_start 0
    let ghost l1 = all_updates.list();
//@at loop_end 0
    proof { assert(untag(u.list()).take(it.index() as int + 1) =~= untag(u.list()).take(it.index() as int).push((0u64, u.list()[it.index() as int].1))); assert(all_updates.list() =~= log_of(x0) + untag(u.list()).take(it.index() as int + 1)); }
//@at after_loop 0
    proof { assert(untag(u.list()).take(u.list().len() as int) =~= untag(u.list())); }
//@at fn_start
    proof { lemma_names(); }
    let ghost d0 = fs.disk();
    let ghost x0 = rec(d0)->0;
    let ghost a0 = choose|a: Hist| #[trigger] applied(w, a, content(x0)) && h == a + log_of(x0);
    let ghost l2 = log_of(x0) + u.list();
    let ghost e = with_dir(d0, in_backup(d0), Some(Dir { log: Some(l2), ..x0 }));
    proof {
        assert(a0 + l2 =~= h + u.list());
        assert(content(rec(e)->0).edges =~= content(x0).edges);
        assert(content(rec(e)->0).elabels =~= content(x0).elabels);
        assert(applied(w, a0, content(rec(e)->0)));
        assert(safe(e, w, h + u.list()));
        u.lemma_untagged();
        if x0.log is None { assert(l2 =~= u.list()); }
    }
//@end
//@fn src=core/src/graph/mod.rs item=Graph::persist_updates
//@rewrite <F> =>
//@rewrite (?s),\s+progress_callback: F,\s+\) => , fs: &mut Fs, Ghost(w): Ghost<World>, Ghost(h): Ghost<Hist>)
//@rewrite (?s)where\s+F: Fn\(&str\),? =>
//@rewrite (?s)apply_update_result\.and_then\(\|_\| \{.*Ok\(\(\)\)\s*\}\); => match apply_update_result { Ok(_) => self.log_updates(copy_path(&location), u, fs, Ghost(w), Ghost(h)), Err(e) => Err(e) };
//@rewrite? self\.location\.clone\(\) => copy_path_opt(&self.location)
//@rewrite? self\.open\(&location\) => self.open(&location, fs, Ghost(w), Ghost(h))
//@rewrite? self\.ensure_loaded_all\(\) => self.ensure_loaded_all(fs)
//@spec
    requires
        apply_update_result is Ok ==> old(self).loaded(), old(self).at_home(), old(self).location is Some ==> Self::stores(*old(fs), w, h, old(u).list()),
    ensures
        final(fs).goal() == old(fs).goal(), ret is Ok ==> apply_update_result is Ok,
        old(self).location is Some ==> match ret { Ok(_) => safe(final(fs).disk(), w, h + old(u).list()), Err(_) => safe(final(fs).disk(), w, h) },
        ret is Ok ==> *final(self) == *old(self), final(u).list() == old(u).list(),
//@end
//@fn src=core/src/graph/mod.rs item=Graph::apply_update
//@rewrite <F> =>
//@rewrite (?s)(u: &mut GraphUpdate),\s+progress_callback: F,?\s*\) => ${1}, fs: &mut Fs, Ghost(w): Ghost<World>, Ghost(h): Ghost<Hist>)
//@rewrite (?s)where\s+F: Fn\(&str\),? =>
//@rewrite? progress_callback\("[^"]*"\); =>
//@rewrite? ensure_loaded_all\(\) => ensure_loaded_all(fs)
//@rewrite? , &progress_callback\) => )
//@rewrite? , progress_callback\) => , fs, Ghost(w), Ghost(h))
//@spec
    requires
        old(self).at_home(), old(self).holds(old(fs).disk()), old(self).location is Some ==> Self::stores(*old(fs), w, h, old(u).list()),
        applied(w, h, old(self).world(old(fs).disk())),
    ensures
        final(fs).goal() == old(fs).goal(),
        old(self).location is Some ==> match ret { Ok(_) => safe(final(fs).disk(), w, h + old(u).list()), Err(_) => safe(final(fs).disk(), w, h) },
        ret is Ok ==> applied(w, h + old(u).list(), final(self).world(final(fs).disk())) && final(self).loaded() && final(self).location == old(self).location,
//@at? after_call apply_update_in_memory 0
    proof { if result is Ok { lemma_applied_twice(w, h, old(self).world(old(fs).disk()), u.list(), self.world(fs.disk())); } }
    let ghost g1 = *self;
    let ghost d1 = fs.disk();
//@at fn_end
    proof { assert(g1.world(d1).edges =~= g1.world(fs.disk()).edges); assert(g1.world(d1).elabels =~= g1.world(fs.disk()).elabels); }
//@end
//@fn src=core/src/graph/mod.rs item=Graph::apply_update_keep_statistics
//@rewrite <F> =>
//@rewrite (?s)(u: &mut GraphUpdate),\s+progress_callback: F,?\s*\) => ${1}, fs: &mut Fs, Ghost(w): Ghost<World>, Ghost(h): Ghost<Hist>)
//@rewrite (?s)where\s+F: Fn\(&str\),? =>
//@rewrite? progress_callback\("[^"]*"\); =>
//@rewrite? ensure_loaded_all\(\) => ensure_loaded_all(fs)
//@rewrite? , &progress_callback\) => )
//@rewrite? , progress_callback\) => , fs, Ghost(w), Ghost(h))
//@spec
    requires
        old(self).at_home(), old(self).holds(old(fs).disk()), old(self).location is Some ==> Self::stores(*old(fs), w, h, old(u).list()),
        applied(w, h, old(self).world(old(fs).disk())),
    ensures
        final(fs).goal() == old(fs).goal(),
        old(self).location is Some ==> match ret { Ok(_) => safe(final(fs).disk(), w, h + old(u).list()), Err(_) => safe(final(fs).disk(), w, h) },
        ret is Ok ==> applied(w, h + old(u).list(), final(self).world(final(fs).disk())) && final(self).loaded() && final(self).location == old(self).location,
//@at? after_call apply_update_in_memory 0
    proof { if result is Ok { lemma_applied_twice(w, h, old(self).world(old(fs).disk()), u.list(), self.world(fs.disk())); } }
    let ghost g1 = *self;
    let ghost d1 = fs.disk();
//@at fn_end
    proof { assert(g1.world(d1).edges =~= g1.world(fs.disk()).edges); assert(g1.world(d1).elabels =~= g1.world(fs.disk()).elabels); }
//@end
}
/// while there is a backup, everything can be done in the other folder
pub proof fn lemma_free_current(fs: Fs, w: World, h: Hist)
    requires safe(fs.disk(), w, h), forall|d: Disk| safe(d, w, h) ==> #[trigger] (fs.goal())(d),
    ensures in_backup(fs.disk()) ==> fs.free(false),
{
    assert forall|x: Option<Dir>| in_backup(fs.disk()) implies #[trigger] (fs.goal())(with_dir(fs.disk(), false, x)) by { assert(rec(with_dir(fs.disk(), false, x)) == rec(fs.disk())); assert(safe(with_dir(fs.disk(), false, x), w, h)); }
}
}
