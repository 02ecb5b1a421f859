#![allow(unused_imports, dead_code, unused_macros)]
use vstd::prelude::*;
use vstd::std_specs::iter::IteratorSpec;
use vstd::std_specs::hash::*;
use std::collections::HashMap;
use std::borrow::Borrow;
//@include std.inc
//@include opt.inc
use xstd::*;
use xopt::*;
verus! {
//@canary
global size_of usize == 8;

// ---------------------------------------------------------------- std::path (contracts assumed; Unix)
/// a component's name
#[verifier::external_body]
pub struct Name { _p: u8 }
pub enum Comp { Prefix, Root, Cur, Parent, Normal(Name) }
/// what `components` gives: no prefix, a root or `.` only at the start
pub open spec fn wf(cs: Seq<Comp>) -> bool {
  &&& forall|i: int| 0 <= i < cs.len() ==> !((#[trigger] cs[i]) is Prefix)
  &&& forall|i: int| 0 < i < cs.len() ==> !((#[trigger] cs[i]) is Root) && !(cs[i] is Cur)
}
pub open spec fn absolute(cs: Seq<Comp>) -> bool { cs.len() > 0 && cs[0] is Root }
/// `PathBuf::push`
pub open spec fn pushed(a: Seq<Comp>, b: Seq<Comp>) -> Seq<Comp> {
  if absolute(b) || a.len() == 0 { b } else if b.len() > 0 && b[0] is Cur { a + b.skip(1) } else { a + b }
}
/// `Path::parent`, `PathBuf::pop`
pub open spec fn parent_of(a: Seq<Comp>) -> Option<Seq<Comp>> {
  if a.len() > 0 && !(a.last() is Root) && !(a.last() is Prefix) { Some(a.drop_last()) } else { None }
}
pub mod std_path { use super::*;
  #[verifier::external_body]
  pub struct OsStr { _p: u8 }
  #[verifier::external_body]
  pub struct Path { _p: u8 }
  #[verifier::external_body]
  pub struct PathBuf { _p: u8 }
  #[verifier::external_body]
  pub struct PrefixComponent<'a> { _p: &'a u8 }
  pub enum Component<'a> { Prefix(PrefixComponent<'a>), RootDir, CurDir, ParentDir, Normal(&'a OsStr) }
  impl<'a> Clone for Component<'a> {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
  }
  impl<'a> Copy for Component<'a> {}
  #[verifier::external]
  impl<'a> Clone for PrefixComponent<'a> { fn clone(&self) -> Self { unimplemented!() } }
  #[verifier::external]
  impl<'a> Copy for PrefixComponent<'a> {}
  /// what can be seen as a path: `AsRef<Path>`
  pub trait AsPath: Sized {
    spec fn cs(&self) -> Seq<Comp>;
    fn as_ref(&self) -> (r: &Path) ensures r.cs() == self.cs();
  }
  impl<'a> AsPath for &'a OsStr { uninterp spec fn cs(&self) -> Seq<Comp>; #[verifier::external_body] fn as_ref(&self) -> (r: &Path) { unimplemented!() } }
  impl<'a> AsPath for &'a Path { open spec fn cs(&self) -> Seq<Comp> { (**self).cs() } #[verifier::external_body] fn as_ref(&self) -> (r: &Path) { unimplemented!() } }
  impl<'a> AsPath for &'a str { uninterp spec fn cs(&self) -> Seq<Comp>; #[verifier::external_body] fn as_ref(&self) -> (r: &Path) { unimplemented!() } }
  impl AsPath for PathBuf { open spec fn cs(&self) -> Seq<Comp> { self.comps() } #[verifier::external_body] fn as_ref(&self) -> (r: &Path) { unimplemented!() } }
  /// the component as specifications see it
  pub uninterp spec fn name(o: &OsStr) -> Name;
  pub open spec fn comp(c: Component<'_>) -> Comp {
    match c { Component::Prefix(_) => Comp::Prefix, Component::RootDir => Comp::Root, Component::CurDir => Comp::Cur, Component::ParentDir => Comp::Parent, Component::Normal(o) => Comp::Normal(name(o)) }
  }
  impl<'a> Component<'a> {
    #[verifier::external_body]
    pub fn as_os_str(self) -> (r: &'a OsStr) ensures r.cs() == seq![comp(self)] { unimplemented!() }
  }
  impl Path {
    pub uninterp spec fn cs(&self) -> Seq<Comp>;
    #[verifier::external_body]
    pub fn is_absolute(&self) -> (r: bool) ensures r == absolute(self.cs()) { unimplemented!() }
    #[verifier::external_body]
    pub fn components<'a>(&'a self) -> (r: XIter<Component<'a>>)
      ensures r.rest().len() == self.cs().len(),
        forall|i: int| 0 <= i < self.cs().len() ==> comp(#[trigger] r.rest()[i]) == self.cs()[i],
        forall|i: int| 0 <= i < self.cs().len() && (#[trigger] r.rest()[i]) is Normal ==> r.rest()[i]->Normal_0.cs() == seq![self.cs()[i]],
    { unimplemented!() }
    #[verifier::external_body]
    pub fn parent(&self) -> (r: Option<&Path>)
      ensures match parent_of(self.cs()) { Some(p) => r is Some && (r->0).cs() == p, None => r is None }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn to_owned(&self) -> (r: PathBuf) ensures r.comps() == self.cs() { unimplemented!() }
    #[verifier::external_body]
    pub fn starts_with(&self, base: &Path) -> (r: bool) ensures r == base.cs().is_prefix_of(self.cs()) { unimplemented!() }
  }
  impl PathBuf {
    pub uninterp spec fn comps(&self) -> Seq<Comp>;
    #[verifier::external_body]
    pub fn new() -> (r: PathBuf) ensures r.comps() == Seq::<Comp>::empty() { unimplemented!() }
    /// `From<&OsStr>`, `From<&str>`
    #[verifier::external_body]
    pub fn from<P: AsPath>(p: P) -> (r: PathBuf) ensures r.comps() == p.cs() { unimplemented!() }
    #[verifier::external_body]
    pub fn push<P: AsPath>(&mut self, p: P) ensures final(self).comps() == pushed(old(self).comps(), p.cs()) { unimplemented!() }
    #[verifier::external_body]
    pub fn pop(&mut self) -> (r: bool)
      ensures match parent_of(old(self).comps()) { Some(p) => r && final(self).comps() == p, None => !r && final(self).comps() == old(self).comps() }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn as_path(&self) -> (r: &Path) ensures r.cs() == self.comps() { unimplemented!() }
    #[verifier::external_body]
    pub fn x_deref(&self) -> (r: &Path) ensures r.cs() == self.comps() { unimplemented!() }
  }
  impl core::ops::Deref for PathBuf {
    type Target = Path;
    #[verifier::external_body]
    fn deref(&self) -> (r: &Path) ensures r.cs() == self.comps() { unimplemented!() }
  }
  impl Clone for PathBuf {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
  }
  impl PartialEq for Path {
    #[verifier::external_body]
    fn eq(&self, o: &Path) -> bool { unimplemented!() }
  }
  impl vstd::std_specs::cmp::PartialEqSpecImpl for Path {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &Path) -> bool { self.cs() == o.cs() }
  }
  #[verifier::external]
  impl Eq for Path {}
  pub broadcast axiom fn axiom_path_wf(p: &Path) ensures wf(#[trigger] p.cs());
  pub broadcast axiom fn axiom_path_buf_wf(p: PathBuf) ensures wf(#[trigger] p.comps());
  pub broadcast axiom fn axiom_root(s: &str) ensures s@ == "/"@ ==> #[trigger] s.cs() == seq![Comp::Root];
  /// paths are compared (and hashed) by their components
  pub broadcast axiom fn axiom_path_buf_eq(p: PathBuf, q: PathBuf) ensures #[trigger] p.comps() == #[trigger] q.comps() ==> p == q;
  pub broadcast group group_path { axiom_path_wf, axiom_path_buf_wf }
}

// ---------------------------------------------------------------- clean paths
/// absolute, no dot components
pub open spec fn clean(cs: Seq<Comp>) -> bool { absolute(cs) && forall|i: int| 0 < i < cs.len() ==> (#[trigger] cs[i]) is Normal }
/// the components kept
pub open spec fn norm(cs: Seq<Comp>) -> Seq<Comp> decreases cs.len() {
  if cs.len() == 0 { Seq::empty() } else { keep(norm(cs.drop_last()), cs.last()) }
}
pub open spec fn keep(k: Seq<Comp>, c: Comp) -> Seq<Comp> {
  match c {
    Comp::Root => seq![c],
    Comp::Cur => k,
    Comp::Parent => if k.len() > 1 { k.drop_last() } else { k },
    _ => k.push(c),
  }
}
pub proof fn lemma_norm_clean(cs: Seq<Comp>)
  requires wf(cs), absolute(cs),
  ensures clean(norm(cs)),
  decreases cs.len(),
{
  let p = cs.drop_last();
  reveal_with_fuel(norm, 2);
  if cs.len() == 1 { assert(norm(p) =~= Seq::empty()); assert(norm(cs) =~= seq![cs[0]]); }
  else { assert(p[0] == cs[0]); assert(wf(p)); lemma_norm_clean(p); }
}
pub proof fn lemma_norm_id(cs: Seq<Comp>)
  requires clean(cs),
  ensures norm(cs) == cs,
  decreases cs.len(),
{
  let p = cs.drop_last();
  reveal_with_fuel(norm, 2);
  if cs.len() == 1 { assert(norm(p) =~= Seq::empty()); assert(norm(cs) =~= cs); }
  else { assert(p[0] == cs[0]); lemma_norm_id(p); assert(norm(cs) =~= cs); }
}

// ---------------------------------------------------------------- maps (HashMap: vstd's contracts; BTreeMap: assumed here)
/// the key that borrows as `k`, if any
pub uninterp spec fn bkey<K, Q: ?Sized>(k: &Q) -> Option<K>;
pub open spec fn get_opt<K, V>(m: Map<K, V>, k: Option<K>) -> Option<V> {
  if k is Some && m.contains_key(k->0) { Some(m[k->0]) } else { None }
}
/// Assumed of `Borrow`: equality, order and hash of the borrowed form agree with those of the key
pub broadcast axiom fn axiom_borrow_contains<K, V, Q: ?Sized>(m: Map<K, V>, k: &Q)
  ensures #[trigger] contains_borrowed_key(m, k) <==> get_opt(m, bkey::<K, Q>(k)) is Some;
pub broadcast axiom fn axiom_borrow_maps<K, V, Q: ?Sized>(m: Map<K, V>, k: &Q, v: V)
  ensures #[trigger] maps_borrowed_key_to_value(m, k, v) <==> get_opt(m, bkey::<K, Q>(k)) == Some(v);
pub broadcast axiom fn axiom_bkey_self<K>(k: &K)
  ensures #[trigger] bkey::<K, K>(k) == Some(*k);
pub broadcast group group_borrow { axiom_borrow_contains, axiom_borrow_maps, axiom_bkey_self }
pub mod rustc_hash { use super::*;
  pub struct FxBuildHasher;
  #[verifier::external]
  impl std::hash::BuildHasher for FxBuildHasher { type Hasher = std::hash::DefaultHasher; fn build_hasher(&self) -> Self::Hasher { unimplemented!() } }
  #[verifier::external]
  impl Default for FxBuildHasher { fn default() -> Self { unimplemented!() } }
  #[verifier::external]
  impl Clone for FxBuildHasher { fn clone(&self) -> Self { unimplemented!() } }
  pub type FxHashMap<K, V> = HashMap<K, V, FxBuildHasher>;
}
pub mod std_btree { use super::*;
  #[verifier::external_body]
  #[verifier::reject_recursive_types(K)]
  #[verifier::reject_recursive_types(V)]
  pub struct BTreeMap<K, V> { k: Vec<K>, v: Vec<V> }
  impl<K, V> View for BTreeMap<K, V> { type V = Map<K, V>; uninterp spec fn view(&self) -> Map<K, V>; }
  impl<K, V> BTreeMap<K, V> {
    #[verifier::external_body]
    pub fn get<Q: ?Sized>(&self, q: &Q) -> (r: Option<&V>)
      ensures match get_opt(self@, bkey::<K, Q>(q)) { Some(v) => r is Some && *(r->0) == v, None => r is None }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn contains_key<Q: ?Sized>(&self, q: &Q) -> (r: bool)
      ensures r == (get_opt(self@, bkey::<K, Q>(q)) is Some)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn keys(&self) -> (r: XIter<&K>)
      ensures keys_of(r.rest(), self@)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn iter(&self) -> (r: XIter<(&K, &V)>)
      ensures keys_of(r.rest().map_values(|e: (&K, &V)| e.0), self@), forall|i: int| 0 <= i < r.rest().len() ==> *(#[trigger] r.rest()[i]).1 == self@[*r.rest()[i].0],
    { unimplemented!() }
  }
  /// each key once
  pub open spec fn keys_of<K, V>(s: Seq<&K>, m: Map<K, V>) -> bool {
    &&& s.no_duplicates()
    &&& forall|i: int| 0 <= i < s.len() ==> m.contains_key(*(#[trigger] s[i]))
    &&& forall|k: K| #[trigger] m.contains_key(k) ==> exists|i: int| 0 <= i < s.len() && *(#[trigger] s[i]) == k
  }
}
pub mod idx { use super::*;
pub trait ExpectShim<T, E>: Sized {
  spec fn v(&self) -> core::result::Result<T, E>;
  /// `expect`: does not return on an error
  fn expect_or_diverge(self, msg: &str) -> (r: T) ensures self.v() == Ok::<T, E>(r);
}
impl<T, E: core::fmt::Debug> ExpectShim<T, E> for core::result::Result<T, E> {
  open spec fn v(&self) -> core::result::Result<T, E> { *self }
  #[verifier::external_body]
  fn expect_or_diverge(self, msg: &str) -> (r: T) { unimplemented!() }
}
//@splice crates/idx/src/lib.rs
panics may
rewrite `n.try_into().expect` => `n.try_into().expect_or_diverge`
fn Idx::new
  ret r
  spec
    ensures n <= u32::MAX, r.0 == n,
fn Idx::new_u32
  ret r
  spec
    ensures r.0 == n,
fn Idx::to_usize
  ret r
  spec
    ensures r == self.0,
//@end
impl Idx { pub open spec fn n(self) -> int { self.0 as int } }
}
/// `std::io`, `std::env`
pub mod std_io { use super::*;
  pub enum ErrorKind { NotFound, PermissionDenied, AlreadyExists, InvalidInput, InvalidData, UnexpectedEof, Unsupported, Other }
  #[verifier::external_body]
  pub struct Error { _p: u8 }
  impl Error {
    pub uninterp spec fn kind_of(&self) -> ErrorKind;
    #[verifier::external_body]
    pub fn other(s: &str) -> (r: Error) ensures r.kind_of() == ErrorKind::Other { unimplemented!() }
  }
  pub uninterp spec fn err_of(k: ErrorKind) -> Error;
  pub broadcast axiom fn axiom_err_of(k: ErrorKind) ensures (#[trigger] err_of(k)).kind_of() == k;
  impl From<ErrorKind> for Error {
    #[verifier::external_body]
    fn from(k: ErrorKind) -> (r: Error) { unimplemented!() }
  }
  impl vstd::std_specs::convert::FromSpecImpl<ErrorKind> for Error {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(k: ErrorKind) -> Error { err_of(k) }
  }
  pub type Result<T> = core::result::Result<T, Error>;
}
pub mod std_env { use super::*;
  /// what the system says the directory of the process is
  pub uninterp spec fn os_current_dir() -> std_io::Result<std_path::PathBuf>;
  #[verifier::external_body]
  pub fn current_dir() -> (r: std_io::Result<std_path::PathBuf>) ensures r == os_current_dir() { unimplemented!() }
}
pub trait Callback2: Sized {
  /// what it was called with so far
  spec fn seen(&self) -> Seq<(paths::PathId, paths::PathId)>;
  fn call(&mut self, a: paths::PathId, b: paths::PathId)
    ensures final(self).seen() == old(self).seen().push((a, b));
}
pub trait EnumShim: Iterator + Sized {
  /// `Iterator::enumerate`
  #[verifier::external_body]
  fn x_enumerate(self) -> (r: XIter<(usize, Self::Item)>)
    requires self.obeys_prophetic_iter_laws(), self.decrease() is Some, self.remaining().len() <= usize::MAX,
    ensures r.rest() == Seq::new(self.remaining().len(), |i: int| (i as usize, self.remaining()[i]))
  { unimplemented!() }
  /// `Iterator::filter_map`
  #[verifier::external_body]
  fn x_filter_map<B, F: FnMut(Self::Item) -> Option<B>>(self, f: F) -> (r: XIter<B>)
    requires self.obeys_prophetic_iter_laws(), self.decrease() is Some,
      forall|k: int| 0 <= k < self.remaining().len() ==> call_requires(f, (#[trigger] self.remaining()[k],)),
    ensures exists|os: Seq<Option<B>>| #[trigger] os.len() == self.remaining().len() && somes(os) == r.rest()
      && forall|k: int| 0 <= k < os.len() ==> call_ensures(f, (self.remaining()[k],), #[trigger] os[k]),
  { unimplemented!() }
  /// `Iterator::collect` into a `Vec`
  #[verifier::external_body]
  fn x_collect(self) -> (r: Vec<Self::Item>)
    requires self.obeys_prophetic_iter_laws(), self.decrease() is Some,
    ensures r@ == self.remaining()
  { unimplemented!() }
}
impl<I: Iterator> EnumShim for I {}
pub open spec fn somes<B>(os: Seq<Option<B>>) -> Seq<B> decreases os.len() {
  if os.len() == 0 { Seq::empty() } else { let p = somes(os.drop_last()); match os.last() { Some(b) => p.push(b), None => p } }
}
/// UTF-8
#[verifier::external_body]
pub fn x_into_bytes(s: String) -> (r: Vec<u8>) ensures r@ == vstd::utf8::encode_utf8(s@) { unimplemented!() }

pub mod paths { use super::*; use super::std_path::*; use super::rustc_hash::*; use super::std_btree::*;
broadcast use {vstd::std_specs::hash::group_hash_axioms, super::group_borrow, super::std_io::axiom_err_of};
/// lookups by the borrowed forms of a clean path
pub broadcast axiom fn axiom_bkey_clean(k: &CleanPath)
  ensures forall|q: CleanPathBuf| #[trigger] bkey::<CleanPathBuf, CleanPath>(k) == Some(q) <==> #[trigger] q.0.comps() == k.0.cs(),
    bkey::<CleanPathBuf, CleanPath>(k) is Some;
pub broadcast axiom fn axiom_bkey_path(k: &Path)
  ensures forall|q: CleanPathBuf| #[trigger] bkey::<CleanPathBuf, Path>(k) == Some(q) <==> #[trigger] q.0.comps() == k.cs();
/// Assumed: the derived equality and hash of clean paths are lawful
pub broadcast axiom fn axiom_clean_key() ensures #[trigger] obeys_key_model::<CleanPathBuf>(), builds_valid_hashers::<FxBuildHasher>();
impl Clone for CleanPathBuf {
  /// (derived)
  #[verifier::external_body]
  fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
impl Default for Store {
  /// (derived)
  #[verifier::external_body]
  fn default() -> (r: Self) ensures r.id_to_path@ == Seq::<CleanPathBuf>::empty(), r.path_to_id@ == Map::<CleanPathBuf, PathId>::empty() { unimplemented!() }
}
#[verifier::external]
impl PartialEq for CleanPath { fn eq(&self, o: &Self) -> bool { unimplemented!() } }
#[verifier::external]
impl Eq for CleanPath {}
#[verifier::external]
impl std::hash::Hash for CleanPath { fn hash<H: std::hash::Hasher>(&self, h: &mut H) { unimplemented!() } }
#[verifier::external]
impl PartialEq for CleanPathBuf { fn eq(&self, o: &Self) -> bool { unimplemented!() } }
#[verifier::external]
impl Eq for CleanPathBuf {}
#[verifier::external]
impl std::hash::Hash for CleanPathBuf { fn hash<H: std::hash::Hasher>(&self, h: &mut H) { unimplemented!() } }
#[verifier::external]
impl Borrow<CleanPath> for CleanPathBuf { fn borrow(&self) -> &CleanPath { unimplemented!() } }
#[verifier::external]
impl Borrow<Path> for CleanPathBuf { fn borrow(&self) -> &Path { unimplemented!() } }
/// stands for `Borrow`, whose impls must give the same path
pub trait XBorrow<B: ?Sized> {
  spec fn borrows(&self, b: &B) -> bool;
  fn borrow(&self) -> (r: &B)
    ensures self.borrows(r);
}
impl Store {
  /// ids count the stored paths, and the two directions agree
  pub closed spec fn inv(&self) -> bool {
    &&& self.id_to_path@.len() <= u32::MAX + 1
    &&& forall|i: int| 0 <= i < self.id_to_path@.len() ==> self.path_to_id@.contains_key(#[trigger] self.id_to_path@[i]) && self.path_to_id@[self.id_to_path@[i]].0.n() == i
    &&& forall|p: CleanPathBuf| #[trigger] self.path_to_id@.contains_key(p) ==> 0 <= self.path_to_id@[p].0.n() < self.id_to_path@.len() && self.id_to_path@[self.path_to_id@[p].0.n()] == p
  }
  pub closed spec fn all(&self) -> Seq<CleanPathBuf> { self.id_to_path@ }
}
impl Store {
  pub proof fn lemma_inv(&self)
    requires self.inv(),
    ensures forall|p: CleanPathBuf| #[trigger] self.all().contains(p) <==> self.path_to_id@.contains_key(p),
  {
    assert forall|p: CleanPathBuf| #[trigger] self.all().contains(p) <==> self.path_to_id@.contains_key(p) by {
      if self.all().contains(p) { let i = self.all().index_of(p); assert(self.id_to_path@[i] == p); }
    }
  }
}
pub proof fn lemma_in(s: Seq<CleanPathBuf>, p: CleanPathBuf)
  ensures forall|q: CleanPathBuf| #[trigger] s.push(p).contains(q) <==> s.contains(q) || q == p,
{
  assert forall|q: CleanPathBuf| #[trigger] s.push(p).contains(q) <==> s.contains(q) || q == p by {
    if s.contains(q) { let i = s.index_of(q); assert(s.push(p)[i] == q); }
    if q == p { assert(s.push(p)[s.len() as int] == q); }
    if s.push(p).contains(q) && q != p { let i = s.push(p).index_of(q); assert(s[i] == q); }
  }
}
pub proof fn lemma_push(o: Seq<CleanPathBuf>, n: int)
  requires 0 <= n < o.len(),
  ensures forall|q: CleanPathBuf| #[trigger] o.take(n + 1).contains(q) <==> o.take(n).contains(q) || q == o[n],
{
  assert(o.take(n + 1) =~= o.take(n).push(o[n]));
  lemma_in(o.take(n), o[n]);
}
pub broadcast group group_clean { axiom_clean_key, axiom_bkey_clean, axiom_bkey_path }
/// the owned form
pub open spec fn owned(p: &CleanPath) -> CleanPathBuf { bkey::<CleanPathBuf, CleanPath>(p)->0 }
pub proof fn lemma_key(k: &CleanPath)
  ensures bkey::<CleanPathBuf, CleanPath>(k) is Some, owned(k).0.comps() == k.0.cs(),
{
  broadcast use axiom_bkey_clean;
  assert(bkey::<CleanPathBuf, CleanPath>(k) == Some(owned(k)));
}
impl PathId { pub closed spec fn n(self) -> int { self.0.n() } }
/// `s` after `p` was looked up in a store with paths `old`
pub open spec fn looked_up(old: Seq<CleanPathBuf>, s: Seq<CleanPathBuf>, r: PathId, p: CleanPathBuf) -> bool {
  &&& s == (if old.contains(p) { old } else { old.push(p) })
  &&& 0 <= r.n() < s.len() && s[r.n()] == p
}
/// the calls for the first `n` paths of `other`
pub open spec fn told(calls: Seq<(PathId, PathId)>, other: Seq<CleanPathBuf>, s: Seq<CleanPathBuf>, n: int) -> bool {
  &&& calls.len() == n
  &&& forall|i: int| 0 <= i < n ==> (#[trigger] calls[i]).0.n() == i && 0 <= calls[i].1.n() < s.len() && s[calls[i].1.n()] == other[i]
}
pub open spec fn kept(p: &CleanPathBuf, base: Seq<Comp>) -> Option<PathBuf> { if below(p.0.comps(), base) { Some(p.0) } else { None } }
/// `out` keeps from the keys `ks` of `m` those below `base`
pub open spec fn kept_of(ks: Seq<&CleanPathBuf>, os: Seq<Option<PathBuf>>, m: Map<CleanPathBuf, String>, base: Seq<Comp>, out: Seq<PathBuf>) -> bool {
  keys_of(ks, m) && os.len() == ks.len() && somes(os) == out && forall|k: int| 0 <= k < os.len() ==> #[trigger] os[k] == kept(ks[k], base)
}
pub proof fn lemma_kept_to(ks: Seq<&CleanPathBuf>, os: Seq<Option<PathBuf>>, base: Seq<Comp>)
  requires ks.no_duplicates(), os.len() == ks.len(), forall|k: int| 0 <= k < os.len() ==> #[trigger] os[k] == kept(ks[k], base),
  ensures somes(os).no_duplicates(),
    forall|p: PathBuf| #[trigger] somes(os).contains(p) <==> exists|k: int| 0 <= k < ks.len() && (#[trigger] ks[k]).0 == p && below(p.comps(), base),
  decreases os.len(),
{
  if os.len() > 0 {
    let (ks1, os1, n) = (ks.drop_last(), os.drop_last(), ks.len() - 1);
    lemma_kept_to(ks1, os1, base);
    let (a, b) = (somes(os1), somes(os));
    assert(b == if below(ks[n].0.comps(), base) { a.push(ks[n].0) } else { a });
    assert forall|p: PathBuf| #[trigger] b.contains(p) <==> exists|k: int| 0 <= k < ks.len() && (#[trigger] ks[k]).0 == p && below(p.comps(), base) by {
      if b.contains(p) {
        let i = b.index_of(p);
        if i < a.len() {
          assert(a[i] == p); assert(a.contains(p));
          let k = choose|k: int| 0 <= k < ks1.len() && (#[trigger] ks1[k]).0 == p && below(p.comps(), base); assert(ks[k].0 == p);
        } else { assert(ks[n].0 == p); }
      }
      if exists|k: int| 0 <= k < ks.len() && (#[trigger] ks[k]).0 == p && below(p.comps(), base) {
        let k = choose|k: int| 0 <= k < ks.len() && (#[trigger] ks[k]).0 == p && below(p.comps(), base);
        if k < n { assert(ks1[k].0 == p); assert(a.contains(p)); let i = a.index_of(p); assert(b[i] == p); }
        else { assert(b[a.len() as int] == p); }
      }
    }
    if below(ks[n].0.comps(), base) && a.contains(ks[n].0) {
      let k = choose|k: int| 0 <= k < ks1.len() && (#[trigger] ks1[k]).0 == ks[n].0 && below(ks[n].0.comps(), base);
      assert(*ks[k] == *ks[n]); assert(ks[k] == ks[n]);
    }
  }
}
pub proof fn lemma_kept(ks: Seq<&CleanPathBuf>, os: Seq<Option<PathBuf>>, m: Map<CleanPathBuf, String>, base: Seq<Comp>, out: Seq<PathBuf>)
  requires kept_of(ks, os, m, base, out),
  ensures out.no_duplicates(), forall|p: PathBuf| #[trigger] out.contains(p) <==> m.contains_key(CleanPathBuf(p)) && below(p.comps(), base),
{
  lemma_kept_to(ks, os, base);
  assert forall|p: PathBuf| #[trigger] out.contains(p) <==> m.contains_key(CleanPathBuf(p)) && below(p.comps(), base) by {
    if out.contains(p) { let k = choose|k: int| 0 <= k < ks.len() && (#[trigger] ks[k]).0 == p && below(p.comps(), base); assert(*ks[k] == CleanPathBuf(p)); }
    if m.contains_key(CleanPathBuf(p)) && below(p.comps(), base) { let k = choose|k: int| 0 <= k < ks.len() && *(#[trigger] ks[k]) == CleanPathBuf(p); assert(ks[k].0 == p); }
  }
}
pub open spec fn below(p: Seq<Comp>, base: Seq<Comp>) -> bool { base.is_prefix_of(p) && p != base }
//@splice crates/paths/src/lib.rs
only struct Store
only impl Store
only struct PathId
only struct MemoryFileSystem
only struct RealFileSystem
only impl MemoryFileSystem
only impl FileSystem@MemoryFileSystem
only fn FileSystem@RealFileSystem::current_dir
only impl XBorrow@CleanPathBuf
only impl XBorrow@CleanPathBuf#2
only struct CleanPath
only struct CleanPathBuf
only impl CleanPath
only impl ToOwned@CleanPath
only impl CleanPathBuf
derive CleanPath
derive CleanPathBuf
derive Store
derive PathId Clone Copy PartialEq Eq
derive MemoryFileSystem
derive RealFileSystem
rewrite `std::borrow::Borrow` => `XBorrow`
rewrite `AsRef<Path>` => `AsPath`
rewrite `idx::Idx` => `super::idx::Idx`
rewrite `F: FnMut(PathId, PathId)` => `F: Callback2`
rewrite `f(` => `f.call(`
rewrite `.enumerate` => `.x_enumerate`
rewrite `.filter_map` => `.x_filter_map`
rewrite `.collect` => `.x_collect`
rewrite `std::io` => `std_io`
rewrite `std::env` => `std_env`
rewrite `String::into_bytes` => `x_into_bytes`
inherent FileSystem@MemoryFileSystem
inherent FileSystem@RealFileSystem
inject impl XBorrow@CleanPathBuf
  open spec fn borrows(&self, b: &CleanPath) -> bool { b.0.cs() == self.0.comps() }
inject impl XBorrow@CleanPathBuf#2
  open spec fn borrows(&self, b: &Path) -> bool { b.cs() == self.0.comps() }
inject impl CleanPathBuf
  /// `ToOwned` of what is `Clone`
  #[verifier::external_body]
  fn to_owned(&self) -> (r: CleanPathBuf) ensures r == *self { unimplemented!() }
fn Store::new
  ret r
  spec
    ensures r.inv(), r.all() == Seq::<CleanPathBuf>::empty(),
fn Store::get_id
  ret r
  spec
    requires old(self).inv(),
    ensures final(self).inv(), looked_up(old(self).all(), final(self).all(), r, owned(path)), owned(path).0.comps() == path.0.cs(),
  at start
    proof { broadcast use {group_clean, axiom_path_buf_eq}; assert(owned(path).0.comps() == path.0.cs()); self.lemma_inv(); lemma_key(path); }
    let ghost s0 = *self;
fn Store::get_id_owned
  ret r
  spec
    requires old(self).inv(),
    ensures final(self).inv(), looked_up(old(self).all(), final(self).all(), r, path),
  at start
    proof { broadcast use {group_clean, axiom_path_buf_eq}; self.lemma_inv(); }
    let ghost s0 = *self;
fn Store::get_path
  ret r
  spec
    requires self.inv(), 0 <= id.n() < self.all().len(),
    ensures r.0.cs() == self.all()[id.n()].0.comps(),
fn Store::combine
  spec
    requires old(self).inv(), other.inv(),
    ensures final(self).inv(), old(self).all().is_prefix_of(final(self).all()),
      old(f).seen().is_prefix_of(final(f).seen()),
      told(final(f).seen().skip(old(f).seen().len() as int), other.all(), final(self).all(), other.all().len() as int),
      forall|p: CleanPathBuf| #[trigger] final(self).all().contains(p) <==> old(self).all().contains(p) || other.all().contains(p),
  at start
    let ghost (s0, seen0, o) = (*self, f.seen(), other.all());
    proof { assert(o.len() <= u32::MAX + 1); assert(s0.all().take(s0.all().len() as int) =~= s0.all()); assert(f.seen().skip(seen0.len() as int) =~= Seq::empty()); }
  loop 0 it
    invariant it.iter.obeys_prophetic_iter_laws(), it.iter.decrease() is Some,
      it.seq() == Seq::new(o.len(), |i: int| (i as usize, o[i])), o.len() <= u32::MAX + 1,
      self.inv(), s0.all().is_prefix_of(self.all()), seen0.is_prefix_of(f.seen()),
      told(f.seen().skip(seen0.len() as int), o, self.all(), it.index@ as int),
      forall|p: CleanPathBuf| #[trigger] self.all().contains(p) <==> s0.all().contains(p) || o.take(it.index@ as int).contains(p),
  at loop 0 start
    let ghost (s1, seen1, n) = (self.all(), f.seen(), it.index@ as int);
    proof { assert(it.seq()[n] == (n as usize, o[n])); }
  at loop 0 end
    proof {
      lemma_in(s1, o[n]); lemma_push(o, n);
      let (a, b) = (seen1.skip(seen0.len() as int), f.seen().skip(seen0.len() as int));
      assert(b =~= a.push(f.seen().last()));
      assert forall|i: int| 0 <= i < n implies b[i] == #[trigger] a[i] by {}
      assert(told(b, o, self.all(), n + 1));
    }
  at loop 0 after
    proof { assert(o.take(o.len() as int) =~= o); }
fn MemoryFileSystem::root
  ret r
  spec
    ensures r.0.comps() == seq![Comp::Root], clean(r.0.comps()),
  at start
    proof { broadcast use axiom_root; }
fn MemoryFileSystem::new
  ret r
  spec
    ensures r.inner == inner,
fn FileSystem@RealFileSystem::current_dir
  ret r
  spec
    ensures r is Ok ==> clean((r->Ok_0).0.comps()),
      match std_env::os_current_dir() {
        Ok(p) => if absolute(p.comps()) { r is Ok && (r->Ok_0).0.comps() == norm(p.comps()) } else { r is Err && (r->Err_0).kind_of() == std_io::ErrorKind::Other },
        Err(e) => r == Err::<CleanPathBuf, std_io::Error>(e),
      },
fn FileSystem@MemoryFileSystem::current_dir
  ret r
  spec
    ensures r is Ok, (r->Ok_0).0.comps() == seq![Comp::Root],
fn FileSystem@MemoryFileSystem::read_to_string
  ret r
  spec
    ensures match get_opt(self.inner@, bkey::<CleanPathBuf, Path>(path)) {
      Some(s) => r is Ok && (r->Ok_0)@ == s@,
      None => r is Err && (r->Err_0).kind_of() == std_io::ErrorKind::NotFound,
    },
fn FileSystem@MemoryFileSystem::read_to_bytes
  ret r
  spec
    ensures match get_opt(self.inner@, bkey::<CleanPathBuf, Path>(path)) {
      Some(s) => r is Ok && (r->Ok_0)@ == vstd::utf8::encode_utf8(s@),
      None => r is Err && (r->Err_0).kind_of() == std_io::ErrorKind::NotFound,
    },
fn FileSystem@MemoryFileSystem::read_dir
  ret r
  spec
    ensures r is Ok, (r->Ok_0)@.no_duplicates(),
      forall|p: PathBuf| #[trigger] (r->Ok_0)@.contains(p) <==> self.inner@.contains_key(CleanPathBuf(p)) && below(p.comps(), path.cs()),
  closure 0 |$0| -> (o: Option<PathBuf>)
    ensures o == kept($0, path.cs())
  closure 1 || -> (q: PathBuf)
    ensures q == pb.0
  at tail
    proof {
      assert(exists|ks: Seq<&CleanPathBuf>, os: Seq<Option<PathBuf>>| #![trigger keys_of(ks, self.inner@), os.len()] kept_of(ks, os, self.inner@, path.cs(), iter.rest()));
      let (ks, os) = choose|ks: Seq<&CleanPathBuf>, os: Seq<Option<PathBuf>>| #![trigger keys_of(ks, self.inner@), os.len()] kept_of(ks, os, self.inner@, path.cs(), iter.rest());
      lemma_kept(ks, os, self.inner@, path.cs(), iter.rest());
    }
fn FileSystem@MemoryFileSystem::is_file
  ret r
  spec
    ensures r == (get_opt(self.inner@, bkey::<CleanPathBuf, Path>(path)) is Some),
rewrite `.peekable` => `.x_peekable`
rewrite `Some(&c @` => `Some(c @`
rewrite `.peek` => `.x_peek`
rewrite `.then` => `.x_then`
inherent ToOwned@CleanPath
rewrite `Self::Owned` => `CleanPathBuf`
fn ToOwned@CleanPath::to_owned
  ret r
  spec
    ensures r.0.comps() == self.0.cs(),
fn CleanPath::new_unchecked
  ret r
  attr #[verifier::external_body]
  spec
    ensures r.0.cs() == path.cs(),
fn CleanPath::as_path
  ret r
  spec
    ensures r.cs() == self.0.cs(),
fn CleanPath::parent
  ret r
  spec
    ensures match parent_of(self.0.cs()) { Some(p) => r is Some && (r->0).0.cs() == p, None => r is None },
      clean(self.0.cs()) && r is Some ==> clean((r->0).0.cs()),
fn CleanPath::join
  ret r
  spec
    requires clean(self.0.cs()),
    ensures r.0.comps() == norm(pushed(self.0.cs(), other.cs())), clean(r.0.comps()),
fn CleanPathBuf::new
  ret r
  spec
    ensures r is Some <==> absolute(path.cs()), r is Some ==> (r->0).0.comps() == norm(path.cs()) && clean((r->0).0.comps()),
fn CleanPathBuf::new_from_path
  ret r
  spec
    ensures r is Some <==> absolute(path.cs()), r is Some ==> (r->0).0.comps() == norm(path.cs()) && clean((r->0).0.comps()),
  closure 0 || -> (o: CleanPathBuf)
    requires absolute(path.cs())
    ensures o.0.comps() == norm(path.cs()), clean(o.0.comps())
fn CleanPathBuf::new_unchecked
  ret r
  spec
    requires absolute(path.cs()),
    ensures r.0.comps() == norm(path.cs()), clean(r.0.comps()),
  at start
    proof {
      broadcast use group_path;
      assert(wf(path.cs()));
      lemma_norm_clean(path.cs());
      assert(path.cs().take(path.cs().len() as int) =~= path.cs());
      assert(path.cs().take(0) =~= Seq::<Comp>::empty());
    }
  loop 0 it
    invariant it.iter.obeys_prophetic_iter_laws(), it.iter.decrease() is Some,
      wf(path.cs()), absolute(path.cs()),
      it.seq().len() == path.cs().len(),
      forall|i: int| 0 <= i < path.cs().len() ==> comp(#[trigger] it.seq()[i]) == path.cs()[i],
      forall|i: int| 0 <= i < path.cs().len() && (#[trigger] it.seq()[i]) is Normal ==> it.seq()[i]->Normal_0.cs() == seq![path.cs()[i]],
      ret.comps() =~= norm(path.cs().take(it.index@ as int)),
      it.index@ > 0 ==> clean(ret.comps()),
      it.index@ == 0 ==> ret.comps().len() == 0,
  at loop 0 start
    proof {
      let i = it.index@ as int;
      let p = path.cs().take(i + 1);
      assert(p.drop_last() =~= path.cs().take(i));
      assert(p.last() == path.cs()[i]);
      assert(comp(it.seq()[i]) == path.cs()[i]);
      assert(i == 0 <==> path.cs()[i] is Root);
    }
fn CleanPathBuf::as_clean_path
  ret r
  spec
    ensures r.0.cs() == self.0.comps(),
fn CleanPathBuf::as_path
  ret r
  spec
    ensures r.cs() == self.0.comps(),
fn CleanPathBuf::into_path_buf
  ret r
  spec
    ensures r == self.0,
fn CleanPathBuf::push
  spec
    requires clean(old(self).0.comps()),
    ensures final(self).0.comps() == norm(pushed(old(self).0.comps(), path.cs())), clean(final(self).0.comps()),
//@end
}

// ---------------------------------------------------------------- the real file system (contracts of std::fs assumed)
/// `std::fs`: every call says what the system says of that path, for as long as nothing changes on disk
pub mod std_fs { use super::*; use super::std_path::*;
  #[verifier::external_body]
  pub struct DirEntry { _p: u8 }
  impl DirEntry {
    pub uninterp spec fn at(&self) -> PathBuf;
    #[verifier::external_body]
    pub fn path(&self) -> (r: PathBuf) ensures r == self.at() { unimplemented!() }
  }
  pub uninterp spec fn os_text(p: &Path) -> std_io::Result<String>;
  pub uninterp spec fn os_bytes(p: &Path) -> std_io::Result<Vec<u8>>;
  pub uninterp spec fn os_is_file(p: &Path) -> bool;
  /// opening a directory; what it then lists
  pub uninterp spec fn os_dir(p: &Path) -> std_io::Result<Seq<std_io::Result<DirEntry>>>;
  #[verifier::external_body]
  pub fn read_to_string(p: &Path) -> (r: std_io::Result<String>) ensures r == os_text(p) { unimplemented!() }
  #[verifier::external_body]
  pub fn read(p: &Path) -> (r: std_io::Result<Vec<u8>>) ensures r == os_bytes(p) { unimplemented!() }
  #[verifier::external_body]
  pub fn read_dir(p: &Path) -> (r: std_io::Result<XIter<std_io::Result<DirEntry>>>)
    ensures match os_dir(p) { Ok(es) => r is Ok && (r->Ok_0).rest() == es, Err(e) => r == Err::<XIter<std_io::Result<DirEntry>>, std_io::Error>(e) }
  { unimplemented!() }
  impl Path {
    #[verifier::external_body]
    pub fn is_file(&self) -> (r: bool) ensures r == os_is_file(self) { unimplemented!() }
  }
}
pub mod real { use super::*; use super::std_path::*; use super::std_fs::*; use super::xstd::*;
pub trait RealShim: Iterator + Sized {
  /// `Iterator::map`
  #[verifier::external_body]
  fn r_map<B, F: FnMut(Self::Item) -> B>(self, f: F) -> (r: XIter<B>)
    requires self.obeys_prophetic_iter_laws(), self.decrease() is Some,
      forall|k: int| 0 <= k < self.remaining().len() ==> call_requires(f, (#[trigger] self.remaining()[k],)),
    ensures r.rest().len() == self.remaining().len(),
      forall|k: int| #![trigger self.remaining()[k]] #![trigger r.rest()[k]] 0 <= k < self.remaining().len() ==> call_ensures(f, (self.remaining()[k],), r.rest()[k]),
  { unimplemented!() }
}
impl<I: Iterator> RealShim for I {}
pub trait CollectShim<A, E>: Iterator<Item = core::result::Result<A, E>> + Sized {
  /// `Iterator::collect` into a `Result` of a `Vec`: the first error, or everything in order
  #[verifier::external_body]
  fn r_collect(self) -> (r: core::result::Result<Vec<A>, E>)
    requires self.obeys_prophetic_iter_laws(), self.decrease() is Some,
    ensures match r {
      Ok(v) => v@.len() == self.remaining().len() && forall|k: int| 0 <= k < v@.len() ==> #[trigger] self.remaining()[k] == Ok::<A, E>(v@[k]),
      Err(e) => exists|k: int| 0 <= k < self.remaining().len() && #[trigger] self.remaining()[k] == Err::<A, E>(e) && forall|j: int| 0 <= j < k ==> (#[trigger] self.remaining()[j]) is Ok,
    }
  { unimplemented!() }
}
impl<A, E, I: Iterator<Item = core::result::Result<A, E>>> CollectShim<A, E> for I {}
/// where an entry is
pub open spec fn entry_at(x: std_io::Result<DirEntry>) -> std_io::Result<PathBuf> {
  match x { Ok(e) => Ok(e.at()), Err(e) => Err(e) }
}
/// the entries of a directory, all of them in the order the system gives them; or the first error of the system
pub open spec fn entries(d: std_io::Result<Seq<std_io::Result<DirEntry>>>, r: std_io::Result<Vec<PathBuf>>) -> bool {
  match d {
    Err(e) => r == Err::<Vec<PathBuf>, std_io::Error>(e),
    Ok(es) => match r {
      Ok(v) => v@.len() == es.len() && forall|k: int| 0 <= k < es.len() ==> (#[trigger] es[k]) is Ok && v@[k] == (es[k]->Ok_0).at(),
      Err(e) => exists|k: int| 0 <= k < es.len() && #[trigger] es[k] == Err::<DirEntry, std_io::Error>(e) && forall|j: int| 0 <= j < k ==> (#[trigger] es[j]) is Ok,
    },
  }
}
//@splice crates/paths/src/lib.rs
only struct RealFileSystem
only fn FileSystem@RealFileSystem::read_to_string
only fn FileSystem@RealFileSystem::read_to_bytes
only fn FileSystem@RealFileSystem::read_dir
only fn FileSystem@RealFileSystem::is_file
derive RealFileSystem
rewrite `std::fs` => `std_fs`
rewrite `std::io` => `std_io`
rewrite `.map` => `.r_map`
rewrite `.collect` => `.r_collect`
inherent FileSystem@RealFileSystem
fn FileSystem@RealFileSystem::read_to_string
  ret r
  spec
    ensures r == os_text(path),
fn FileSystem@RealFileSystem::read_to_bytes
  ret r
  spec
    ensures r == os_bytes(path),
fn FileSystem@RealFileSystem::read_dir
  ret r
  spec
    ensures entries(os_dir(path), r),
  closure 0 |$0| -> (o: std_io::Result<PathBuf>)
    ensures o == entry_at($0)
fn FileSystem@RealFileSystem::is_file
  ret r
  spec
    ensures r == os_is_file(path),
//@end
}
}
fn main() {}
