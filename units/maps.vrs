#![feature(allocator_api)]
#![allow(unused_imports, dead_code, unused_macros)]
use vstd::prelude::*;
use std::borrow::Borrow;
use std::collections::{HashMap, HashSet};
use std::hash::{BuildHasher, Hash};
use vstd::std_specs::iter::IteratorSpec;
use vstd::std_specs::hash::*;
use vstd::set::Set as VSet;
//@include std.inc
use xstd::*;
verus! {
//@canary
broadcast use {vstd::std_specs::hash::group_hash_axioms, xstd::group_xstd};

// ---------------------------------------------------------------- rustc_hash (external): only the types
pub mod rustc_hash { use super::*;
  pub struct FxBuildHasher;
  #[verifier::external]
  impl BuildHasher for FxBuildHasher { type Hasher = std::hash::DefaultHasher; fn build_hasher(&self) -> Self::Hasher { unimplemented!() } }
  #[verifier::external]
  impl Default for FxBuildHasher { fn default() -> Self { unimplemented!() } }
  #[verifier::external]
  impl Clone for FxBuildHasher { fn clone(&self) -> Self { unimplemented!() } }
  pub type FxHashMap<K, V> = HashMap<K, V, FxBuildHasher>;
  pub type FxHashSet<K> = HashSet<K, FxBuildHasher>;
}
use rustc_hash::*;

/// hashing and equality of keys are lawful, and the hasher is
pub open spec fn hk<K>() -> bool { obeys_key_model::<K>() && builds_valid_hashers::<FxBuildHasher>() }

/// Assumed: a reference hashes and compares as what it points at
pub broadcast axiom fn axiom_ref_key<'a, K>()
  ensures obeys_key_model::<K>() ==> #[trigger] obeys_key_model::<&'a K>();

/// the map a sequence of pairs makes, later pairs winning
pub open spec fn pairs_map<K, V>(s: Seq<(K, V)>) -> Map<K, V> decreases s.len() {
  if s.len() == 0 { Map::empty() } else { pairs_map(s.drop_last()).insert(s.last().0, s.last().1) }
}
pub open spec fn dup_pair<K, V>(s: Seq<(K, V)>) -> bool {
  exists|i: int, j: int| 0 <= i < j < s.len() && (#[trigger] s[i]).0 == (#[trigger] s[j]).0
}
pub proof fn lemma_pairs_map<K, V>(s: Seq<(K, V)>)
  ensures
    forall|k: K| #![trigger pairs_map(s).contains_key(k)] pairs_map(s).contains_key(k) <==> exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0 == k,
    !dup_pair(s) ==> forall|i: int| 0 <= i < s.len() ==> pairs_map(s)[(#[trigger] s[i]).0] == s[i].1,
  decreases s.len(),
{
  if s.len() > 0 {
    let p = s.drop_last();
    lemma_pairs_map(p);
    assert forall|k: K| #![trigger pairs_map(s).contains_key(k)] pairs_map(s).contains_key(k) <==> exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0 == k by {
      if pairs_map(s).contains_key(k) {
        if k == s.last().0 { assert(s[s.len() - 1].0 == k); }
        else { assert(pairs_map(p).contains_key(k)); let i = choose|i: int| 0 <= i < p.len() && (#[trigger] p[i]).0 == k; assert(s[i].0 == k); }
      }
      if exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0 == k {
        let i = choose|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0 == k;
        if i < s.len() - 1 { assert(p[i].0 == k); assert(pairs_map(p).contains_key(k)); }
      }
    }
    if !dup_pair(s) {
      assert(!dup_pair(p)) by { if dup_pair(p) { let (i, j) = choose|i: int, j: int| 0 <= i < j < p.len() && (#[trigger] p[i]).0 == (#[trigger] p[j]).0; assert(s[i].0 == s[j].0); } }
      assert forall|i: int| 0 <= i < s.len() implies pairs_map(s)[(#[trigger] s[i]).0] == s[i].1 by {
        if i < s.len() - 1 { assert(s[i].0 != s[s.len() - 1].0); assert(p[i] == s[i]); assert(pairs_map(p)[p[i].0] == p[i].1); }
      }
    }
  }
}

pub proof fn lemma_pairs_step<K, V>(s: Seq<(K, V)>, n: int)
  requires 0 <= n < s.len(),
  ensures pairs_map(s.take(n + 1)) == pairs_map(s.take(n)).insert(s[n].0, s[n].1),
    dup_pair(s.take(n + 1)) <==> dup_pair(s.take(n)) || pairs_map(s.take(n)).contains_key(s[n].0),
{
  let (a, b) = (s.take(n), s.take(n + 1));
  assert(b.drop_last() =~= a);
  lemma_pairs_map(a);
  if dup_pair(b) {
    let (i, j) = choose|i: int, j: int| 0 <= i < j < b.len() && (#[trigger] b[i]).0 == (#[trigger] b[j]).0;
    if j < n { assert(a[i].0 == a[j].0); } else { assert(a[i].0 == s[n].0); }
  }
  if dup_pair(a) {
    let (i, j) = choose|i: int, j: int| 0 <= i < j < a.len() && (#[trigger] a[i]).0 == (#[trigger] a[j]).0;
    assert(b[i].0 == b[j].0);
  }
  if pairs_map(a).contains_key(s[n].0) {
    let i = choose|i: int| 0 <= i < a.len() && (#[trigger] a[i]).0 == s[n].0;
    assert(b[i].0 == b[n].0);
  }
}
pub proof fn lemma_set_step<K>(s: Seq<K>, n: int)
  requires 0 <= n < s.len(),
  ensures s.take(n + 1).to_set() == s.take(n).to_set().insert(s[n]),
    s.take(n + 1).no_duplicates() <==> s.take(n).no_duplicates() && !s.take(n).to_set().contains(s[n]),
{
  broadcast use {vstd::seq_lib::group_seq_properties, vstd::set::group_set_lemmas};
  let (a, b) = (s.take(n), s.take(n + 1));
  assert(b =~= a.push(s[n]));
  assert forall|x: K| b.to_set().contains(x) == a.to_set().insert(s[n]).contains(x) by {
    if b.contains(x) { let i = b.index_of(x); if i < n { assert(a[i] == x); } }
    if a.contains(x) { let i = a.index_of(x); assert(b[i] == x); }
    if x == s[n] { assert(b[n] == x); }
  }
  assert(b.to_set() =~= a.to_set().insert(s[n]));
  if b.no_duplicates() {
    assert forall|i: int, j: int| 0 <= i < a.len() && 0 <= j < a.len() && i != j implies a[i] != a[j] by { assert(b[i] != b[j]); }
    if a.contains(s[n]) { let i = a.index_of(s[n]); assert(b[i] == b[n]); }
  } else {
    let (i, j) = choose|i: int, j: int| 0 <= i < b.len() && 0 <= j < b.len() && i != j && b[i] == b[j];
    if i < n && j < n { assert(a[i] == a[j]); } else if i < n { assert(a[i] == s[n]); assert(a.contains(s[n])); } else { assert(a[j] == s[n]); assert(a.contains(s[n])); }
  }
}

pub assume_specification<K, V, S> [HashMap::<K, V, S>::with_capacity_and_hasher] (cap: usize, h: S) -> (r: HashMap<K, V, S>)
  ensures r@ == Map::<K, V>::empty();
pub assume_specification<K, S> [HashSet::<K, S>::with_capacity_and_hasher] (cap: usize, h: S) -> (r: HashSet<K, S>)
  ensures r@ == VSet::<K>::empty();


pub proof fn lemma_take_dup<K, V>(s: Seq<(K, V)>, n: int)
  requires 0 <= n <= s.len(),
  ensures dup_pair(s.take(n)) ==> dup_pair(s),
{
  if !dup_pair(s.take(n)) { return; }
  let a = s.take(n);
  let (i, j) = choose|i: int, j: int| 0 <= i < j < a.len() && (#[trigger] a[i]).0 == (#[trigger] a[j]).0;
  assert(s[i].0 == s[j].0);
}
pub proof fn lemma_take_dup2<K>(s: Seq<K>, n: int)
  requires 0 <= n <= s.len(),
  ensures s.no_duplicates() ==> s.take(n).no_duplicates(),
{
}

// ---------------------------------------------------------------- fast-hash: when it returns, what it returns
pub mod fast_hash { use super::*;
//@splice crates/fast-hash/src/lib.rs
panics may
fn map_with_capacity
  ret r
  spec
    ensures r@ == Map::<K, V>::empty()
fn set_with_capacity
  ret r
  spec
    ensures r@ == VSet::<K>::empty()
fn map
  ret r
  spec
    ensures hk::<K>() ==> !dup_pair(xs@) && r@ == pairs_map(xs@),
  loop 0 it wrap=x_array_iter
    invariant it.iter.obeys_prophetic_iter_laws(), it.iter.decrease() is Some, it.seq() == xs@,
      hk::<K>() ==> ret@ == pairs_map(it.seq().take(it.index@ as int)) && !dup_pair(it.seq().take(it.index@ as int)),
  at loop 0 start
    proof { lemma_pairs_step(it.seq(), it.index@ as int); }
  at loop 0 after
    proof { assert(xs@.take(xs@.len() as int) =~= xs@); }
fn set
  ret r
  spec
    ensures hk::<K>() ==> xs@.no_duplicates() && r@ == xs@.to_set(),
  loop 0 it wrap=x_array_iter
    invariant it.iter.obeys_prophetic_iter_laws(), it.iter.decrease() is Some, it.seq() == xs@,
      hk::<K>() ==> ret@ == it.seq().take(it.index@ as int).to_set() && it.seq().take(it.index@ as int).no_duplicates(),
  at loop 0 start
    proof { lemma_set_step(it.seq(), it.index@ as int); }
  at loop 0 after
    proof { assert(xs@.take(xs@.len() as int) =~= xs@); }
//@end
}
// ---------------------------------------------------------------- fast-hash: without equal keys it returns
pub mod fast_hash_total { use super::*;
//@splice crates/fast-hash/src/lib.rs
fn map_with_capacity
  ret r
  spec
    ensures r@ == Map::<K, V>::empty()
fn set_with_capacity
  ret r
  spec
    ensures r@ == VSet::<K>::empty()
fn map
  ret r
  spec
    requires hk::<K>(), !dup_pair(xs@),
    ensures r@ == pairs_map(xs@),
  loop 0 it wrap=x_array_iter
    invariant it.iter.obeys_prophetic_iter_laws(), it.iter.decrease() is Some, it.seq() == xs@, hk::<K>(), !dup_pair(xs@),
      ret@ == pairs_map(it.seq().take(it.index@ as int)) && !dup_pair(it.seq().take(it.index@ as int)),
  at loop 0 start
    proof { lemma_pairs_step(it.seq(), it.index@ as int); lemma_take_dup(it.seq(), it.index@ as int + 1); }
  at loop 0 after
    proof { assert(xs@.take(xs@.len() as int) =~= xs@); }
fn set
  ret r
  spec
    requires hk::<K>(), xs@.no_duplicates(),
    ensures r@ == xs@.to_set(),
  loop 0 it wrap=x_array_iter
    invariant it.iter.obeys_prophetic_iter_laws(), it.iter.decrease() is Some, it.seq() == xs@, hk::<K>(), xs@.no_duplicates(),
      ret@ == it.seq().take(it.index@ as int).to_set() && it.seq().take(it.index@ as int).no_duplicates(),
  at loop 0 start
    proof { lemma_set_step(it.seq(), it.index@ as int); lemma_take_dup2(it.seq(), it.index@ as int + 1); }
  at loop 0 after
    proof { assert(xs@.take(xs@.len() as int) =~= xs@); }
//@end
}

// ---------------------------------------------------------------- chain-map: specification

pub type Rc<T> = std::rc::Rc<T>;
pub type Lay<K, V> = Rc<FxHashMap<K, V>>;

/// the map a stack of layers stands for: later layers win
pub open spec fn flat<K, V>(s: Seq<Lay<K, V>>) -> Map<K, V> decreases s.len() {
  if s.len() == 0 { Map::empty() } else { flat(s.drop_last()).union_prefer_right((*s.last())@) }
}
/// `Clone` of keys and values gives equal keys and values
pub open spec fn ck<K, V: Clone>() -> bool {
  &&& hk::<K>()
  &&& forall|a: V, b: V| #[trigger] cloned(a, b) ==> a == b
}
/// the key that borrows as `k`, if any
pub uninterp spec fn bkey<K, Q: ?Sized>(k: &Q) -> Option<K>;
pub open spec fn get_opt<K, V>(m: Map<K, V>, k: Option<K>) -> Option<V> {
  if k is Some && m.contains_key(k->0) { Some(m[k->0]) } else { None }
}
/// Assumed of `Borrow`: equality and hash of the borrowed form agree with those of the key
pub broadcast axiom fn axiom_borrow_contains<K, V, Q: ?Sized>(m: Map<K, V>, k: &Q)
  ensures #[trigger] contains_borrowed_key(m, k) <==> get_opt(m, bkey::<K, Q>(k)) is Some;
pub broadcast axiom fn axiom_borrow_maps<K, V, Q: ?Sized>(m: Map<K, V>, k: &Q, v: V)
  ensures #[trigger] maps_borrowed_key_to_value(m, k, v) <==> get_opt(m, bkey::<K, Q>(k)) == Some(v);
pub broadcast axiom fn axiom_borrow_removed<K, V, Q: ?Sized>(m: Map<K, V>, n: Map<K, V>, k: &Q)
  ensures #[trigger] borrowed_key_removed(m, n, k) <==> n == (match bkey::<K, Q>(k) { Some(x) => m.remove(x), None => m });
pub broadcast axiom fn axiom_bkey_self<K>(k: &K)
  ensures #[trigger] bkey::<K, K>(k) == Some(*k);
pub broadcast group group_borrow { axiom_borrow_contains, axiom_borrow_maps, axiom_borrow_removed, axiom_bkey_self }

/// the items an `IntoIterator` gives
pub uninterp spec fn items_of<I: IntoIterator>(i: I) -> Seq<I::Item>;
pub broadcast axiom fn axiom_items_of_map<K, V>(m: FxHashMap<K, V>)
  ensures pairs_map(#[trigger] items_of(m)) == m@;

pub broadcast axiom fn axiom_items_of_array<T, const N: usize>(a: [T; N])
  ensures (#[trigger] items_of(a)) == a@;
pub broadcast group group_items { axiom_items_of_map, axiom_items_of_array }

/// `it` lists exactly the entries of `m`
pub open spec fn lists<K, V>(it: Seq<(&K, &V)>, m: Map<K, V>) -> bool {
  &&& forall|i: int| 0 <= i < it.len() ==> m.contains_key(*(#[trigger] it[i]).0) && m[*it[i].0] == *it[i].1
  &&& forall|k: K| #[trigger] m.contains_key(k) ==> exists|i: int| 0 <= i < it.len() && *(#[trigger] it[i]).0 == k
  &&& forall|i: int, j: int| 0 <= i < j < it.len() ==> *(#[trigger] it[i]).0 != *(#[trigger] it[j]).0
}
/// vstd's contract of `HashMap::iter` says this
pub broadcast proof fn lemma_lists<K, V>(r: Seq<(&K, &V)>, m: Map<K, V>)
  requires
    forall|i: int| #![trigger r[i]] 0 <= i < r.len() ==> m.contains_key(*r[i].0) && m[*r[i].0] == *r[i].1,
    forall|k: K| m.contains_key(k) ==> #[trigger] r.contains((&k, &m[k])),
    r.no_duplicates(),
  ensures #[trigger] lists(r, m),
{
  assert forall|k: K| #[trigger] m.contains_key(k) implies exists|i: int| 0 <= i < r.len() && *(#[trigger] r[i]).0 == k by {
    assert(r.contains((&k, &m[k])));
    let i = r.index_of((&k, &m[k]));
    assert(*r[i].0 == k);
  }
  assert forall|i: int, j: int| 0 <= i < j < r.len() implies *(#[trigger] r[i]).0 != *(#[trigger] r[j]).0 by { assert(r[i] != r[j]); }
}
/// the same, of owned pairs
pub open spec fn lists_owned<K, V>(it: Seq<(K, V)>, m: Map<K, V>) -> bool {
  &&& forall|i: int| 0 <= i < it.len() ==> m.contains_key((#[trigger] it[i]).0) && m[it[i].0] == it[i].1
  &&& forall|k: K| #[trigger] m.contains_key(k) ==> exists|i: int| 0 <= i < it.len() && (#[trigger] it[i]).0 == k
  &&& forall|i: int, j: int| 0 <= i < j < it.len() ==> (#[trigger] it[i]).0 != (#[trigger] it[j]).0
}

// ---------------------------------------------------------------- std functions used by chain-map

pub trait MapShim<K, V>: Sized {
  spec fn mv(&self) -> Map<K, V>;
  /// `HashMap::get_mut`
  fn x_get_mut<Q: ?Sized + Hash + Eq>(&mut self, k: &Q) -> (r: Option<&mut V>) where K: Borrow<Q> + Hash + Eq
    ensures hk::<K>() ==> match r {
      Some(v) => get_opt(old(self).mv(), bkey::<K, Q>(k)) == Some(*v) && final(self).mv() == old(self).mv().insert(bkey::<K, Q>(k)->0, *final(v)),
      None => get_opt(old(self).mv(), bkey::<K, Q>(k)) is None && final(self).mv() == old(self).mv(),
    };
  /// `HashMap::iter_mut`
  fn x_iter_mut<'a>(&'a mut self) -> (r: XIter<(&'a K, &'a mut V)>)
    ensures hk::<K>() ==> mut_lists(r.rest(), old(self).mv(), final(self).mv());
  /// `HashMap::drain`; whatever is not consumed is dropped
  fn x_drain(&mut self) -> (r: XIter<(K, V)>)
    ensures hk::<K>() ==> lists_owned(r.rest(), old(self).mv()), final(self).mv() == Map::<K, V>::empty();
  /// `HashMap::into_iter`
  fn x_into_iter(self) -> (r: XIter<(K, V)>)
    ensures hk::<K>() ==> lists_owned(r.rest(), self.mv());
  /// `Extend::extend`
  fn x_extend<I: IntoIterator<Item = (K, V)>>(&mut self, i: I) where K: Hash + Eq
    ensures hk::<K>() ==> final(self).mv() == old(self).mv().union_prefer_right(pairs_map(items_of(i)));
}
/// `r` lists the entries of `m` mutably; writing through it gives `n`
#[verifier::prophetic]
pub open spec fn mut_lists<K, V>(r: Seq<(&K, &mut V)>, m: Map<K, V>, n: Map<K, V>) -> bool {
  &&& forall|i: int| 0 <= i < r.len() ==> m.contains_key(*(#[trigger] r[i]).0) && m[*r[i].0] == *r[i].1
  &&& forall|k: K| #[trigger] m.contains_key(k) ==> exists|i: int| 0 <= i < r.len() && *(#[trigger] r[i]).0 == k
  &&& forall|i: int, j: int| 0 <= i < j < r.len() ==> *(#[trigger] r[i]).0 != *(#[trigger] r[j]).0
  &&& n.dom() == m.dom()
  &&& forall|i: int| 0 <= i < r.len() ==> n[*(#[trigger] r[i]).0] == *final(r[i].1)
}
impl<K, V> MapShim<K, V> for FxHashMap<K, V> {
  open spec fn mv(&self) -> Map<K, V> { self@ }
  #[verifier::external_body]
  fn x_get_mut<Q: ?Sized + Hash + Eq>(&mut self, k: &Q) -> (r: Option<&mut V>) where K: Borrow<Q> + Hash + Eq { unimplemented!() }
  #[verifier::external_body]
  fn x_iter_mut<'a>(&'a mut self) -> (r: XIter<(&'a K, &'a mut V)>) { unimplemented!() }
  #[verifier::external_body]
  fn x_drain(&mut self) -> (r: XIter<(K, V)>) { unimplemented!() }
  #[verifier::external_body]
  fn x_into_iter(self) -> (r: XIter<(K, V)>) { unimplemented!() }
  #[verifier::external_body]
  fn x_extend<I: IntoIterator<Item = (K, V)>>(&mut self, i: I) where K: Hash + Eq { unimplemented!() }
}
/// `Vec::drain(..)`; whatever is not consumed is dropped
pub trait VecShim<T> {
  spec fn vv(&self) -> Seq<T>;
  fn x_drain(&mut self, all: std::ops::RangeFull) -> (r: XIter<T>)
    ensures r.rest() == old(self).vv(), final(self).vv() == Seq::<T>::empty();
}
impl<T> VecShim<T> for Vec<T> {
  open spec fn vv(&self) -> Seq<T> { self@ }
  #[verifier::external_body]
  fn x_drain(&mut self, all: std::ops::RangeFull) -> (r: XIter<T>) { unimplemented!() }
}
pub open spec fn map_cloned<K, V: Clone>(a: Map<K, V>, b: Map<K, V>) -> bool {
  a.dom() == b.dom() && forall|k: K| #[trigger] a.contains_key(k) ==> cloned(a[k], b[k])
}
pub proof fn lemma_map_cloned<K, V: Clone>(a: Map<K, V>, b: Map<K, V>)
  requires map_cloned(a, b), ck::<K, V>(),
  ensures a == b,
{
  assert forall|k: K| a.contains_key(k) implies a[k] == b[k] by { assert(cloned(a[k], b[k])); }
  assert(a =~= b);
}
/// `Rc::make_mut`: the contents, copied when they are shared
#[verifier::external_body]
pub fn rc_make_mut<K: Clone, V: Clone>(m: &mut Lay<K, V>) -> (r: &mut FxHashMap<K, V>)
  ensures map_cloned((**old(m))@, (*r)@), **final(m) == *final(r)
{ unimplemented!() }
pub assume_specification<T, E, F: FnOnce(E) -> T> [Result::<T, E>::unwrap_or_else] (x: Result<T, E>, f: F) -> (r: T)
  requires x is Err ==> call_requires(f, (x->Err_0,)),
  ensures x is Ok ==> r == x->Ok_0, x is Err ==> call_ensures(f, (x->Err_0,), r);
/// `std::mem::take`
#[verifier::external_body]
pub fn mem_take<K, V>(m: &mut FxHashMap<K, V>) -> (r: FxHashMap<K, V>)
  ensures r == *old(m), final(m)@ == Map::<K, V>::empty()
{ unimplemented!() }
/// `into_iter().collect()` into a hash map
#[verifier::external_body]
pub fn collect_map<K: Hash + Eq, V, I: IntoIterator<Item = (K, V)>>(i: I) -> (r: FxHashMap<K, V>)
  ensures hk::<K>() ==> r@ == pairs_map(items_of(i))
{ unimplemented!() }

// ---------------------------------------------------------------- chain-map: lemmas

pub proof fn lemma_flat_push<K, V>(s: Seq<Lay<K, V>>, l: Lay<K, V>)
  ensures flat(s.push(l)) == flat(s).union_prefer_right((*l)@),
{ assert(s.push(l).drop_last() =~= s); }
pub proof fn lemma_flat_append<K, V>(a: Seq<Lay<K, V>>, b: Seq<Lay<K, V>>)
  ensures flat(a + b) == flat(a).union_prefer_right(flat(b)),
  decreases b.len(),
{
  if b.len() == 0 { assert(a + b =~= a); assert(flat(a).union_prefer_right(flat(b)) =~= flat(a)); }
  else {
    lemma_flat_append(a, b.drop_last());
    assert((a + b).drop_last() =~= a + b.drop_last());
    assert(flat(a + b) =~= flat(a).union_prefer_right(flat(b)));
  }
}
pub proof fn lemma_ref<T>(s: Seq<T>)
  ensures
    forall|i: int| #![trigger s[i]] #![trigger s.as_ref()[i]] 0 <= i < s.len() ==> *s.as_ref()[i] == s[i],
    forall|i: int| #![trigger s.reverse()[i]] #![trigger s.as_ref().reverse()[i]] 0 <= i < s.len() ==> *s.as_ref().reverse()[i] == s.reverse()[i],
{ }
/// the key is in layer `i`
pub open spec fn in_lay<K, V>(s: Seq<Lay<K, V>>, i: int, k: K) -> bool { (*s[i])@.contains_key(k) }
/// layer `i` is the last that has the key
pub open spec fn last_has<K, V>(s: Seq<Lay<K, V>>, i: int, k: K) -> bool {
  0 <= i < s.len() && in_lay(s, i, k) && forall|j: int| i < j < s.len() ==> !#[trigger] in_lay(s, j, k)
}
/// the value of a key is that of the last layer that has it
pub proof fn lemma_flat_some<K, V>(s: Seq<Lay<K, V>>, i: int, k: K)
  requires last_has(s, i, k),
  ensures flat(s).contains_key(k), flat(s)[k] == (*s[i])@[k],
  decreases s.len(),
{
  let p = s.drop_last();
  if i < s.len() - 1 {
    assert(!in_lay(s, s.len() - 1, k));
    assert(p[i] == s[i]);
    assert forall|j: int| i < j < p.len() implies !#[trigger] in_lay(p, j, k) by { assert(p[j] == s[j]); assert(!in_lay(s, j, k)); }
    lemma_flat_some(p, i, k);
  }
}
pub proof fn lemma_flat_none<K, V>(s: Seq<Lay<K, V>>, k: K)
  requires forall|i: int| 0 <= i < s.len() ==> !#[trigger] in_lay(s, i, k),
  ensures !flat(s).contains_key(k),
  decreases s.len(),
{
  if s.len() > 0 {
    let p = s.drop_last();
    assert(!in_lay(s, s.len() - 1, k));
    assert forall|j: int| 0 <= j < p.len() implies !#[trigger] in_lay(p, j, k) by { assert(p[j] == s[j]); assert(!in_lay(s, j, k)); }
    lemma_flat_none(p, k);
  }
}
pub proof fn lemma_flat_has<K, V>(s: Seq<Lay<K, V>>, i: int, k: K)
  requires 0 <= i < s.len(), in_lay(s, i, k),
  ensures flat(s).contains_key(k),
  decreases s.len(),
{
  let p = s.drop_last();
  if i < s.len() - 1 { assert(p[i] == s[i]); lemma_flat_has(p, i, k); }
}

pub proof fn lemma_flat_empty<K, V>(s: Seq<Lay<K, V>>)
  ensures flat(s) =~= Map::<K, V>::empty() <==> forall|i: int| 0 <= i < s.len() ==> (*#[trigger] s[i])@.is_empty(),
{
  if flat(s) =~= Map::<K, V>::empty() {
    assert forall|i: int| 0 <= i < s.len() implies (*#[trigger] s[i])@.is_empty() by {
      assert forall|k: K| !(*s[i])@.contains_key(k) by { if in_lay(s, i, k) { lemma_flat_has(s, i, k); } }
      assert((*s[i])@.dom() =~= VSet::empty());
    }
  }
  if forall|i: int| 0 <= i < s.len() ==> (*#[trigger] s[i])@.is_empty() {
    assert forall|k: K| !flat(s).contains_key(k) by {
      assert forall|i: int| 0 <= i < s.len() implies !#[trigger] in_lay(s, i, k) by { assert((*s[i])@.is_empty()); }
      lemma_flat_none(s, k);
    }
  }
}
pub proof fn lemma_flat_absent<K, V>(s: Seq<Lay<K, V>>, k: K)
  ensures flat(s).contains_key(k) <==> exists|i: int| 0 <= i < s.len() && (*#[trigger] s[i])@.contains_key(k),
{
  if forall|i: int| 0 <= i < s.len() ==> !(*#[trigger] s[i])@.contains_key(k) {
    assert forall|i: int| 0 <= i < s.len() implies !#[trigger] in_lay(s, i, k) by { assert(!(*s[i])@.contains_key(k)); }
    lemma_flat_none(s, k);
  } else {
    let i = choose|i: int| 0 <= i < s.len() && (*#[trigger] s[i])@.contains_key(k);
    lemma_flat_has(s, i, k);
  }
}
pub proof fn lemma_one<K, V>(k: K, v: V)
  ensures forall|s: Seq<(K, V)>| s.len() == 1 && s[0] == (k, v) ==> !dup_pair(s) && #[trigger] pairs_map(s) == Map::<K, V>::empty().insert(k, v),
{
  assert forall|s: Seq<(K, V)>| s.len() == 1 && s[0] == (k, v) implies !dup_pair(s) && #[trigger] pairs_map(s) == Map::<K, V>::empty().insert(k, v) by {
    assert(s.drop_last() =~= Seq::empty());
    assert(pairs_map(s.drop_last()) == Map::<K, V>::empty());
  }
}
pub proof fn lemma_flat_insert<K, V>(s: Seq<Lay<K, V>>, k: K, v: V)
  ensures forall|l: Lay<K, V>| (*l)@ == Map::<K, V>::empty().insert(k, v) ==> flat(#[trigger] s.push(l)) == flat(s).insert(k, v),
{
  assert forall|l: Lay<K, V>| (*l)@ == Map::<K, V>::empty().insert(k, v) implies flat(#[trigger] s.push(l)) == flat(s).insert(k, v) by {
    lemma_flat_push(s, l);
    assert(flat(s.push(l)) =~= flat(s).insert(k, v));
  }
}
/// the same of the layers read from the last to the first
pub proof fn lemma_flat_rev<K, V>(s: Seq<Lay<K, V>>, k: K)
  ensures forall|i: int| 0 <= i < s.len() && (*#[trigger] s.reverse()[i])@.contains_key(k) && (forall|j: int| 0 <= j < i ==> !(*#[trigger] s.reverse()[j])@.contains_key(k))
      ==> flat(s).contains_key(k) && flat(s)[k] == (*s.reverse()[i])@[k],
    (forall|i: int| 0 <= i < s.len() ==> !(*#[trigger] s.reverse()[i])@.contains_key(k)) ==> !flat(s).contains_key(k),
{
  let r = s.reverse();
  assert forall|i: int| 0 <= i < s.len() && (*#[trigger] r[i])@.contains_key(k) && (forall|j: int| 0 <= j < i ==> !(*#[trigger] r[j])@.contains_key(k))
      implies flat(s).contains_key(k) && flat(s)[k] == (*r[i])@[k] by {
    let m = s.len() - 1 - i;
    assert(r[i] == s[m]);
    assert forall|j: int| m < j < s.len() implies !#[trigger] in_lay(s, j, k) by { assert(r[s.len() - 1 - j] == s[j]); }
    lemma_flat_some(s, m, k);
  }
  if forall|i: int| 0 <= i < s.len() ==> !(*#[trigger] r[i])@.contains_key(k) {
    assert forall|i: int| 0 <= i < s.len() implies !#[trigger] in_lay(s, i, k) by { assert(r[s.len() - 1 - i] == s[i]); }
    lemma_flat_none(s, k);
  }
}
pub proof fn lemma_flat_step<K, V>(s: Seq<Lay<K, V>>, n: int)
  requires 0 <= n < s.len(),
  ensures flat(s.take(n + 1)) == flat(s.take(n)).union_prefer_right((*s[n])@),
{ assert(s.take(n + 1).drop_last() =~= s.take(n)); }
pub proof fn lemma_flat_one<K, V>(s: Seq<Lay<K, V>>)
  ensures s.len() == 1 ==> flat(s) == (*s[0])@,
    s.len() == 1 ==> forall|l: Lay<K, V>| flat(#[trigger] s.update(0, l)) == (*l)@,
{
  if s.len() == 1 {
    assert(s.drop_last() =~= Seq::empty());
    assert(flat(s.drop_last()) == Map::<K, V>::empty());
    assert(flat(s) =~= (*s[0])@);
    assert forall|l: Lay<K, V>| flat(#[trigger] s.update(0, l)) == (*l)@ by {
      assert(s.update(0, l).drop_last() =~= Seq::empty());
      assert(flat(s.update(0, l).drop_last()) == Map::<K, V>::empty());
      assert(flat(s.update(0, l)) =~= (*l)@);
    }
  }
}

// ---------------------------------------------------------------- chain-map: iteration

pub open spec fn first_val<K, V>(r: Seq<(&K, &V)>, k: K) -> Option<V> decreases r.len() {
  if r.len() == 0 { None } else if *r[0].0 == k { Some(*r[0].1) } else { first_val(r.skip(1), k) }
}
pub open spec fn dedup<'a, K, V>(r: Seq<(&'a K, &'a V)>, seen: VSet<&'a K>) -> Seq<(&'a K, &'a V)> decreases r.len() {
  if r.len() == 0 { Seq::empty() }
  else if seen.contains(r[0].0) { dedup(r.skip(1), seen) }
  else { seq![r[0]] + dedup(r.skip(1), seen.insert(r[0].0)) }
}
pub open spec fn iter_yields<'a, K, V>(one: bool, r: Seq<(&'a K, &'a V)>, seen: VSet<&'a K>) -> Seq<(&'a K, &'a V)> {
  if one { r } else { dedup(r, seen) }
}

pub proof fn lemma_first_val_cat<K, V>(a: Seq<(&K, &V)>, b: Seq<(&K, &V)>, k: K)
  ensures first_val(a + b, k) == (match first_val(a, k) { Some(v) => Some(v), None => first_val(b, k) }),
  decreases a.len(),
{
  if a.len() == 0 { assert(a + b =~= b); } else { assert((a + b).skip(1) =~= a.skip(1) + b); lemma_first_val_cat(a.skip(1), b, k); }
}
pub proof fn lemma_first_val_has<K, V>(a: Seq<(&K, &V)>, k: K)
  ensures first_val(a, k) is None <==> forall|i: int| 0 <= i < a.len() ==> *(#[trigger] a[i]).0 != k,
    first_val(a, k) is Some ==> exists|i: int| 0 <= i < a.len() && *(#[trigger] a[i]).0 == k && *a[i].1 == first_val(a, k)->0,
  decreases a.len(),
{
  if a.len() > 0 {
    let b = a.skip(1);
    lemma_first_val_has(b, k);
    if first_val(a, k) is None {
      assert forall|i: int| 0 <= i < a.len() implies *(#[trigger] a[i]).0 != k by { if i > 0 { assert(b[i - 1] == a[i]); } }
    }
    if forall|i: int| 0 <= i < a.len() ==> *(#[trigger] a[i]).0 != k {
      assert(*a[0].0 != k);
      assert forall|i: int| 0 <= i < b.len() implies *(#[trigger] b[i]).0 != k by { assert(b[i] == a[i + 1]); }
    }
    if first_val(a, k) is Some && *a[0].0 != k {
      let i = choose|i: int| 0 <= i < b.len() && *(#[trigger] b[i]).0 == k && *b[i].1 == first_val(b, k)->0;
      assert(a[i + 1] == b[i]);
    }
  }
}
/// a listing of `m` has each key's value as the first value
pub proof fn lemma_first_val_lists<K, V>(a: Seq<(&K, &V)>, m: Map<K, V>, k: K)
  requires lists(a, m),
  ensures first_val(a, k) == get_opt(m, Some(k)),
{
  lemma_first_val_has(a, k);
  if m.contains_key(k) { let i = choose|i: int| 0 <= i < a.len() && *(#[trigger] a[i]).0 == k; }
}
/// what is left after `seen` was removed lists the first values of the keys not seen
pub proof fn lemma_dedup<'a, K, V>(r: Seq<(&'a K, &'a V)>, seen: VSet<&'a K>)
  ensures
    forall|i: int| 0 <= i < dedup(r, seen).len() ==> !seen.contains((#[trigger] dedup(r, seen)[i]).0) && first_val(r, *dedup(r, seen)[i].0) == Some(*dedup(r, seen)[i].1),
    forall|k: &'a K| #![trigger seen.contains(k)] #![trigger first_val(r, *k)] !seen.contains(k) && first_val(r, *k) is Some ==> exists|i: int| 0 <= i < dedup(r, seen).len() && (#[trigger] dedup(r, seen)[i]).0 == k,
    forall|i: int, j: int| 0 <= i < j < dedup(r, seen).len() ==> (#[trigger] dedup(r, seen)[i]).0 != (#[trigger] dedup(r, seen)[j]).0,
  decreases r.len(),
{
  if r.len() > 0 {
    let d = dedup(r, seen);
    let t = r.skip(1);
    if seen.contains(r[0].0) {
      lemma_dedup(t, seen);
      assert forall|k: &'a K| !seen.contains(k) && #[trigger] first_val(r, *k) is Some implies exists|i: int| 0 <= i < d.len() && (#[trigger] d[i]).0 == k by {
        assert(first_val(t, *k) is Some);
      }
    } else {
      let s2 = seen.insert(r[0].0);
      lemma_dedup(t, s2);
      let e = dedup(t, s2);
      assert(d =~= seq![r[0]] + e);
      assert forall|i: int| 0 <= i < d.len() implies !seen.contains((#[trigger] d[i]).0) && first_val(r, *d[i].0) == Some(*d[i].1) by {
        if i > 0 { assert(d[i] == e[i - 1]); assert(!s2.contains(e[i - 1].0)); }
      }
      assert forall|k: &'a K| !seen.contains(k) && #[trigger] first_val(r, *k) is Some implies exists|i: int| 0 <= i < d.len() && (#[trigger] d[i]).0 == k by {
        if k == r[0].0 { assert(d[0].0 == k); } else {
          assert(!s2.contains(k)); assert(first_val(t, *k) is Some);
          let i = choose|i: int| 0 <= i < e.len() && (#[trigger] e[i]).0 == k;
          assert(d[i + 1].0 == k);
        }
      }
      assert forall|i: int, j: int| 0 <= i < j < d.len() implies (#[trigger] d[i]).0 != (#[trigger] d[j]).0 by {
        if i == 0 { assert(d[j] == e[j - 1]); assert(!s2.contains(e[j - 1].0)); } else { assert(d[i] == e[i - 1] && d[j] == e[j - 1]); }
      }
    }
  }
}
#[verifier::prophetic]
pub open spec fn lists_all<'a, K: 'a, V: 'a, U: Iterator<Item = (&'a K, &'a V)>>(us: Seq<U>, s: Seq<Lay<K, V>>) -> bool {
  us.len() == s.len() && forall|k: int| 0 <= k < us.len() ==> lists((#[trigger] us[k]).remaining(), (*s[s.len() - 1 - k])@)
}
pub proof fn lemma_flat_of<'a, K: 'a, V: 'a, U: Iterator<Item = (&'a K, &'a V)>>(us: Seq<U>, s: Seq<Lay<K, V>>, k: K)
  requires lists_all(us, s),
  ensures first_val(flat_of(us), k) == get_opt(flat(s), Some(k)),
  decreases s.len(),
{
  if s.len() > 0 {
    let t = us.skip(1);
    assert(lists_all(t, s.drop_last())) by { assert forall|j: int| 0 <= j < t.len() implies lists((#[trigger] t[j]).remaining(), (*s.drop_last()[s.len() - 2 - j])@) by { assert(t[j] == us[j + 1]); } }
    lemma_flat_of(t, s.drop_last(), k);
    lemma_first_val_cat(us[0].remaining(), flat_of(t), k);
    assert(lists(us[0].remaining(), (*s[s.len() - 1 - 0])@));
    lemma_first_val_lists(us[0].remaining(), (*s.last())@, k);
  }
}
pub proof fn lemma_iter<'a, K: 'a, V: 'a, U: Iterator<Item = (&'a K, &'a V)>>(us: Seq<U>, s: Seq<Lay<K, V>>)
  requires lists_all(us, s),
  ensures lists(iter_yields(s.len() == 1, flat_of(us), VSet::empty()), flat(s)),
{
  let r = flat_of(us);
  if s.len() == 1 {
    assert(flat_of(us.skip(1)) =~= Seq::empty());
    assert(r =~= us[0].remaining());
    assert(lists(us[0].remaining(), (*s[s.len() - 1 - 0])@));
    lemma_flat_one(s);
  } else {
    let d = dedup(r, VSet::empty());
    lemma_dedup(r, VSet::empty());
    assert forall|i: int| 0 <= i < d.len() implies flat(s).contains_key(*(#[trigger] d[i]).0) && flat(s)[*d[i].0] == *d[i].1 by {
      lemma_flat_of(us, s, *d[i].0);
    }
    assert forall|k: K| #[trigger] flat(s).contains_key(k) implies exists|i: int| 0 <= i < d.len() && *(#[trigger] d[i]).0 == k by {
      lemma_flat_of(us, s, k);
      assert(first_val(r, *(&k)) is Some);
    }
  }
}

pub mod chain_map { use super::*;
impl<K: Hash + Eq, V, const N: usize> vstd::std_specs::convert::FromSpecImpl<[(K, V); N]> for ChainMap<K, V> {
  open spec fn obeys_from_spec() -> bool { false }
  open spec fn from_spec(v: [(K, V); N]) -> Self { arbitrary() }
}
use super::fast_hash_total::map;
broadcast use {group_borrow, group_items, lemma_lists, axiom_ref_key};
//@splice crates/chain-map/src/lib.rs
rewrite `.all` => `.x_all`
rewrite `.rev` => `.x_rev`
rewrite `.find_map` => `.x_find_map`
rewrite `.flat_map` => `.x_flat_map`
rewrite `std::iter::from_fn` => `x_from_fn`
rewrite `.consolidate_().get_mut` => `.consolidate_().x_get_mut`
rewrite `.consolidate_().iter_mut` => `.consolidate_().x_iter_mut`
rewrite `.drain` => `.x_drain`
rewrite `one.extend` => `one.x_extend`
rewrite `Rc::make_mut` => `rc_make_mut`
rewrite `std::mem::take` => `mem_take`
rewrite `self.consolidate_()).into_iter` => `self.consolidate_()).x_into_iter`
rewrite `iter.into_iter().collect()` => `collect_map(iter)`
rewrite `std::collections::hash_map::IntoIter<K, V>` => `XIter<(K, V)>`
attr struct IntoIter #[verifier::reject_recursive_types(K)] #[verifier::reject_recursive_types(V)]
attr struct ChainMap #[verifier::allow(autoderive_clone_without_spec)]
inherent FromIterator@ChainMap
inherent Extend@ChainMap
inherent IntoIterator@ChainMap
inherent Iterator@IntoIter
rewrite `value.into_iter().collect()` => `Self::from_iter(value)`
rewrite `Self::Item` => `(K, V)`
rewrite `Self::IntoIter` => `IntoIter<K, V>`
fn ChainMap::is_empty
  ret r
  spec
    ensures hk::<K>() ==> r == (flat(self.stack@) =~= Map::empty()),
  closure 0 |$0: &Lay<K, V>| -> (o: bool)
    ensures o == ((**$0)@.is_empty())
  at start
    proof { lemma_ref(self.stack@); lemma_flat_empty(self.stack@); }
fn ChainMap::append
  spec
    ensures flat(final(self).stack@) == flat(old(self).stack@).union_prefer_right(flat(old(other).stack@)),
      flat(final(other).stack@) == Map::<K, V>::empty(),
  at start
    proof { lemma_flat_append(self.stack@, other.stack@); }
fn ChainMap::insert
  ret r
  spec
    requires hk::<K>(),
    ensures flat(final(self).stack@) == flat(old(self).stack@).insert(k, v),
      r == !flat(old(self).stack@).contains_key(k),
  closure 0 |$0: &Lay<K, V>| -> (o: bool)
    ensures o == !(**$0)@.contains_key(k)
  at start
    proof { lemma_ref(self.stack@); lemma_flat_absent(self.stack@, k); lemma_one(k, v); lemma_flat_insert(self.stack@, k, v); }
fn ChainMap::get
  ret r
  spec
    requires hk::<K>(),
    ensures match r {
      Some(v) => get_opt(flat(self.stack@), bkey::<K, Q>(k)) == Some(*v),
      None => get_opt(flat(self.stack@), bkey::<K, Q>(k)) is None,
    },
  closure 0 |$0| -> (o: Option<&V>)
    ensures match o { Some(v) => get_opt((**$0)@, bkey::<K, Q>(k)) == Some(*v), None => get_opt((**$0)@, bkey::<K, Q>(k)) is None }
  at start
    proof { lemma_ref(self.stack@); if bkey::<K, Q>(k) is Some { lemma_flat_rev(self.stack@, bkey::<K, Q>(k)->0); } }
fn ChainMap::iter
  ret r
  spec
    requires hk::<K>(),
    ensures lists(r.remaining(), flat(self.stack@)), r.obeys_prophetic_iter_laws(), r.decrease() is Some,
  closure 0 |$0| -> (o: std::collections::hash_map::Iter<K, V>)
    ensures o.obeys_prophetic_iter_laws(), o.decrease() is Some, lists(o.remaining(), (**$0)@)
  lift 1 (is_len_one, iter, seen), Ghost(iter_yields(is_len_one, iter.rest(), seen@))
    fn iter_step<'x>(is_len_one: bool, iter: &mut XIter<(&'x K, &'x V)>, seen: &mut FxHashSet<&'x K>) -> (r: Option<(&'x K, &'x V)>)
      requires hk::<K>(),
      ensures match r {
        None => iter_yields(is_len_one, old(iter).rest(), old(seen)@) == Seq::<(&'x K, &'x V)>::empty(),
        Some(x) => iter_yields(is_len_one, old(iter).rest(), old(seen)@) == seq![x] + iter_yields(is_len_one, final(iter).rest(), final(seen)@),
      },
  loop 0
    invariant hk::<K>(), old(iter).rest().len() >= iter.rest().len(),
      iter_yields(is_len_one, old(iter).rest(), old(seen)@) == iter_yields(is_len_one, iter.rest(), seen@),
    decreases iter.rest().len(),
  at loop 0 start
    proof { if iter.rest().len() > 0 { assert(iter.rest().drop_first() =~= iter.rest().skip(1)); if seen@.contains(iter.rest()[0].0) { assert(seen@.insert(iter.rest()[0].0) =~= seen@); } } }
  at start
    proof { lemma_ref(self.stack@); assert forall|us: Seq<std::collections::hash_map::Iter<K, V>>| #![trigger flat_of(us)] lists_all(us, self.stack@) implies lists(iter_yields(self.stack@.len() == 1, flat_of(us), VSet::empty()), flat(self.stack@)) by { lemma_iter(us, self.stack@); } }
fn ChainMap::get_mut
  ret r
  spec
    requires ck::<K, V>(),
    ensures match r {
      Some(v) => get_opt(flat(old(self).stack@), bkey::<K, Q>(k)) == Some(*v)
        && flat(final(self).stack@) == flat(old(self).stack@).insert(bkey::<K, Q>(k)->0, *final(v)),
      None => get_opt(flat(old(self).stack@), bkey::<K, Q>(k)) is None && flat(final(self).stack@) == flat(old(self).stack@),
    },
fn ChainMap::remove
  ret r
  spec
    requires ck::<K, V>(),
    ensures r == get_opt(flat(old(self).stack@), bkey::<K, Q>(k)),
      flat(final(self).stack@) == (match bkey::<K, Q>(k) { Some(x) => flat(old(self).stack@).remove(x), None => flat(old(self).stack@) }),
fn ChainMap::iter_mut
  ret r
  spec
    requires ck::<K, V>(),
    ensures mut_lists(r.remaining(), flat(old(self).stack@), flat(final(self).stack@)), r.obeys_prophetic_iter_laws(),
fn ChainMap::drain
  ret r
  spec
    requires ck::<K, V>(),
    ensures lists_owned(r.remaining(), flat(old(self).stack@)), flat(final(self).stack@) == Map::<K, V>::empty(), r.obeys_prophetic_iter_laws(),
fn ChainMap::consolidate
  spec
    requires ck::<K, V>(),
    ensures flat(final(self).stack@) == flat(old(self).stack@),
fn ChainMap::consolidate_
  ret r
  spec
    requires ck::<K, V>(),
    ensures (*r)@ == flat(old(self).stack@), flat(final(self).stack@) == (*final(r))@,
  loop 0 it
    invariant it.iter.obeys_prophetic_iter_laws(), it.iter.decrease() is Some, it.seq() == old(self).stack@,
      ck::<K, V>(), self.stack@ == Seq::<Lay<K, V>>::empty(),
      one@ == flat(it.seq().take(it.index@ as int)),
  closure 0 |$0: Lay<K, V>| -> (o: FxHashMap<K, V>)
    ensures map_cloned((*$0)@, o@)
  at loop 0 start
    let ghost m0 = m;
    proof { lemma_flat_step(it.seq(), it.index@ as int); }
  at call x_extend 0 before
    proof { if map_cloned((*m0)@, m@) { lemma_map_cloned((*m0)@, m@); } }
  at loop 0 after
    proof { assert(old(self).stack@.take(old(self).stack@.len() as int) =~= old(self).stack@); }
  at start
    proof { assert forall|s: Seq<Lay<K, V>>| #![trigger flat(s)] s.len() == 1 implies flat(s) == s[0]@ && (forall|l: Lay<K, V>| flat(#[trigger] s.update(0, l)) == (*l)@) by { lemma_flat_one(s); } }
fn Default@ChainMap::default
  ret r
  spec
    ensures flat(r.stack@) == Map::<K, V>::empty(),
fn Extend@ChainMap::extend
  spec
    ensures hk::<K>() ==> flat(final(self).stack@) == flat(old(self).stack@).union_prefer_right(pairs_map(items_of(iter))),
  at end
    proof { assert(self.stack@.drop_last() =~= old(self).stack@); }
fn FromIterator@ChainMap::from_iter
  ret r
  spec
    ensures hk::<K>() ==> flat(r.stack@) == pairs_map(items_of(iter)),
  at tail
    proof { if hk::<K>() { assert(flat(ret.stack@) =~= pairs_map(items_of(iter))); } }
fn From@ChainMap::from
  ret r
  spec
    ensures hk::<K>() ==> flat(r.stack@) == pairs_map(value@),
fn IntoIterator@ChainMap::into_iter
  ret r
  spec
    requires ck::<K, V>(),
    ensures lists_owned(r.0.rest(), flat(self.stack@)),
fn Iterator@IntoIter::next
  ret r
  spec
    ensures match r {
      Some(x) => old(self).0.rest().len() > 0 && x == old(self).0.rest()[0] && final(self).0.rest() == old(self).0.rest().skip(1),
      None => old(self).0.rest().len() == 0,
    },
//@end
}
} // verus!
fn main() {}
