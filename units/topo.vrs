#![feature(allocator_api)]
#![allow(unused_imports, dead_code, unused_macros)]
use vstd::prelude::*;
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::hash::{BuildHasherDefault, Hash, Hasher, BuildHasher};
use vstd::std_specs::iter::IteratorSpec;
use vstd::set::Set as VSet;
//@include std.inc
use xstd::*;
macro_rules! log_error_stub { ($($t:tt)*) => {}; }
//@splice crates/always/src/lib.rs
only macro always
rewrite `$crate::__log_error!` => `log_error_stub!`
rewrite `cfg!(debug_assertions)` => `xstd::debug_build()`
//@end
verus! {
//@canary
broadcast use {vstd::std_specs::btree::group_btree_axioms, vstd::std_specs::hash::group_hash_axioms, xstd::group_xstd};

#[verifier::reject_recursive_types(H)]
#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExBuildHasherDefault<H>(BuildHasherDefault<H>);

pub mod rustc_hash { use super::*;
  #[verifier::external_body]
  pub struct FxBuildHasher { x: u8 }
  #[verifier::external]
  impl BuildHasher for FxBuildHasher { type Hasher = std::hash::DefaultHasher; fn build_hasher(&self) -> Self::Hasher { unimplemented!() } }
  #[verifier::external]
  impl Default for FxBuildHasher { fn default() -> Self { unimplemented!() } }
  #[verifier::external]
  impl Clone for FxBuildHasher { fn clone(&self) -> Self { unimplemented!() } }
}

// ---------------------------------------------------------------- specification

/// What happened in a run, one element per action popped from the work.
pub enum Ev<T, D> {
  /// processed, pushing these
  Enter(T, D, Seq<T>),
  /// exited at this level
  Exit(T, nat),
  /// started when already done
  Skip(T),
  /// the visitor skipped it
  NoEnter(T),
  /// started while in progress
  Cyc(T, D),
}

pub open spec fn start_of<T, D>(e: Ev<T, D>) -> Option<T> {
  match e { Ev::Enter(v, _, _) => Some(v), Ev::Skip(v) => Some(v), Ev::NoEnter(v) => Some(v), Ev::Cyc(v, _) => Some(v), Ev::Exit(..) => None }
}
/// the elements in progress, outermost first
pub open spec fn stk<T, D>(h: Seq<Ev<T, D>>) -> Seq<T> decreases h.len() {
  if h.len() == 0 { Seq::empty() } else {
    let p = stk(h.drop_last());
    match h.last() { Ev::Enter(v, _, _) => p.push(v), Ev::Exit(..) => p.drop_last(), _ => p }
  }
}
pub open spec fn entered<T, D>(h: Seq<Ev<T, D>>) -> VSet<T> decreases h.len() {
  if h.len() == 0 { VSet::empty() } else {
    let p = entered(h.drop_last());
    match h.last() { Ev::Enter(v, _, _) => p.insert(v), _ => p }
  }
}
pub open spec fn exited<T, D>(h: Seq<Ev<T, D>>) -> VSet<T> decreases h.len() {
  if h.len() == 0 { VSet::empty() } else {
    let p = exited(h.drop_last());
    match h.last() { Ev::Exit(v, _) => p.insert(v), _ => p }
  }
}
/// the elements exited, in order
pub open spec fn exits<T, D>(h: Seq<Ev<T, D>>) -> Seq<T> decreases h.len() {
  if h.len() == 0 { Seq::empty() } else {
    let p = exits(h.drop_last());
    match h.last() { Ev::Exit(v, _) => p.push(v), _ => p }
  }
}
pub open spec fn first_cyc<T, D>(h: Seq<Ev<T, D>>) -> Option<T> decreases h.len() {
  if h.len() == 0 { None } else {
    match first_cyc(h.drop_last()) {
      Some(v) => Some(v),
      None => match h.last() { Ev::Cyc(v, _) => Some(v), _ => None },
    }
  }
}
/// `v` was started at or after `from`
pub open spec fn started_since<T, D>(h: Seq<Ev<T, D>>, from: int, v: T) -> bool {
  exists|q: int| from <= q < h.len() && start_of(#[trigger] h[q]) == Some(v)
}
pub open spec fn is_enter<T, D>(e: Ev<T, D>, v: T) -> bool { e is Enter && e->Enter_0 == v }
/// an element is only started because it is initial work or was pushed by the innermost element in progress
pub open spec fn from_ok<T, D>(p: Seq<Ev<T, D>>, init: Seq<T>, v: T) -> bool {
  if stk(p).len() == 0 { init.contains(v) } else {
    exists|m: int| 0 <= m < p.len() && is_enter(#[trigger] p[m], stk(p).last()) && p[m]->Enter_2.contains(v)
  }
}
/// everything pushed when `v` was processed has been started since
pub open spec fn kids_done<T, D>(p: Seq<Ev<T, D>>, v: T) -> bool {
  exists|m: int| 0 <= m < p.len() && is_enter(#[trigger] p[m], v) && all_started(p, m + 1, p[m]->Enter_2)
}
pub open spec fn all_started<T, D>(p: Seq<Ev<T, D>>, from: int, k: Seq<T>) -> bool {
  forall|j: int| 0 <= j < k.len() ==> started_since(p, from, #[trigger] k[j])
}
/// the discipline: `e` may happen after `p`
pub open spec fn ev_ok<T, D>(p: Seq<Ev<T, D>>, init: Seq<T>, e: Ev<T, D>) -> bool {
  match e {
    // processed at most once
    Ev::Enter(v, _, _) => !entered(p).contains(v) && from_ok(p, init, v),
    Ev::Skip(v) => exited(p).contains(v) && from_ok(p, init, v),
    Ev::NoEnter(v) => !exited(p).contains(v) && from_ok(p, init, v),
    Ev::Cyc(v, _) => stk(p).contains(v) && from_ok(p, init, v),
    // exits nest, after everything pushed was handled, with the number of elements around it
    Ev::Exit(v, l) => stk(p).len() > 0 && stk(p).last() == v && l == stk(p).len() - 1
      && !exited(p).contains(v) && kids_done(p, v),
  }
}
#[verifier::opaque]
pub open spec fn valid<T, D>(h: Seq<Ev<T, D>>, init: Seq<T>) -> bool {
  forall|i: int| 0 <= i < h.len() ==> ev_ok(h.take(i), init, #[trigger] h[i])
}
/// the visitor's part in the event
pub open spec fn vstep<V: Visitor>(a: V, e: Ev<V::Elem, V::Data>, b: V) -> bool {
  match e {
    Ev::Enter(v, d, kids) => a.enter_rel(v, Some(d)) && V::process_rel(&a, v, d, &b, kids),
    Ev::Exit(v, l) => V::exit_rel(&a, v, l, &b),
    Ev::Skip(v) => a == b,
    Ev::NoEnter(v) => a.enter_rel(v, None) && a == b,
    Ev::Cyc(v, d) => a.enter_rel(v, Some(d)) && a == b,
  }
}
#[verifier::opaque]
pub open spec fn vsteps<V: Visitor>(vs: Seq<V>, h: Seq<Ev<V::Elem, V::Data>>) -> bool {
  vs.len() == h.len() + 1 && forall|i: int| 0 <= i < h.len() ==> vstep(vs[i], #[trigger] h[i], vs[i + 1])
}
/// `h` and `vs` are a complete run from the initial work `init`
pub open spec fn run_ok<V: Visitor>(h: Seq<Ev<V::Elem, V::Data>>, vs: Seq<V>, init: Seq<V::Elem>) -> bool {
  &&& valid(h, init)
  &&& vsteps(vs, h)
  &&& stk(h).len() == 0
  &&& all_started(h, 0, init)
}

pub open spec fn unstart<T>(s: Seq<Action<T>>) -> Seq<T> { s.map_values(|a: Action<T>| match a { Action::Start(x) => x, Action::End(x) => x }) }
pub open spec fn starts<T>(s: Seq<T>) -> Seq<Action<T>> { s.map_values(|x: T| Action::Start(x)) }
pub proof fn lemma_unstart<T>(w: Seq<Action<T>>, s: Seq<T>)
  ensures unstart((w + starts(s)).skip(w.len() as int)) == s, unstart(starts(s)) == s,
{
  assert((w + starts(s)).skip(w.len() as int) =~= starts(s));
  assert(unstart(starts(s)) =~= s);
}
/// the pending actions: per element in progress, the pushed elements that were not started yet
pub open spec fn flat<T>(s: Seq<T>, kids: Seq<Seq<T>>, rem: Seq<nat>) -> Seq<Action<T>> decreases s.len() {
  if s.len() == 0 { starts(kids[0].take(rem[0] as int)) }
  else { flat(s.drop_last(), kids.drop_last(), rem.drop_last()).push(Action::End(s.last())) + starts(kids.last().take(rem.last() as int)) }
}
pub open spec fn frames_ok<T, D>(h: Seq<Ev<T, D>>, init: Seq<T>, kids: Seq<Seq<T>>, rem: Seq<nat>, pos: Seq<int>) -> bool { frames(stk(h), h, init, kids, rem, pos) }
pub open spec fn frames<T, D>(s: Seq<T>, h: Seq<Ev<T, D>>, init: Seq<T>, kids: Seq<Seq<T>>, rem: Seq<nat>, pos: Seq<int>) -> bool {
  &&& kids.len() == s.len() + 1 && rem.len() == kids.len() && pos.len() == kids.len()
  &&& kids[0] == init && pos[0] == 0
  &&& forall|i: int| 0 <= i < s.len() ==> #[trigger] ent(s, h, kids, pos, i)
  &&& forall|i: int| 0 <= i < kids.len() ==> #[trigger] rem[i] <= kids[i].len()
  &&& forall|i: int, j: int| 0 <= i < kids.len() && rem[i] <= j < kids[i].len() ==> started_since(h, pos[i], #[trigger] kids[i][j])
}
pub open spec fn ent<T, D>(s: Seq<T>, h: Seq<Ev<T, D>>, kids: Seq<Seq<T>>, pos: Seq<int>, i: int) -> bool {
  0 < pos[i + 1] <= h.len() && is_enter(h[pos[i + 1] - 1], s[i]) && h[pos[i + 1] - 1]->Enter_2 == kids[i + 1]
}
pub open spec fn clone_ok<T: Clone>() -> bool { forall|a: T, b: T| #[trigger] call_ensures(T::clone, (&a,), b) ==> a == b }
pub open spec fn default_ok<S: Set>() -> bool { forall|s: S| #[trigger] call_ensures(S::default, (), s) ==> s.elems() == VSet::<S::Elem>::empty() }

/// the whole bookkeeping invariant of `Work::run`
pub open spec fn inv<V: Visitor>(h: Seq<Ev<V::Elem, V::Data>>, vs: Seq<V>, init: Seq<V::Elem>, kids: Seq<Seq<V::Elem>>, rem: Seq<nat>, pos: Seq<int>) -> bool {
  &&& valid(h, init)
  &&& vsteps(vs, h)
  &&& frames_ok(h, init, kids, rem, pos)
  &&& stk(h).no_duplicates()
  &&& forall|v: V::Elem| #[trigger] entered(h).contains(v) <==> (stk(h).contains(v) || exited(h).contains(v))
  &&& forall|v: V::Elem| #[trigger] stk(h).contains(v) ==> !exited(h).contains(v)
}

// ---------------------------------------------------------------- lemmas

pub proof fn lemma_push<T, D>(h: Seq<Ev<T, D>>, e: Ev<T, D>)
  ensures h.push(e).drop_last() == h, h.push(e).last() == e, h.push(e).take(h.len() as int) == h,
    forall|i: int| 0 <= i <= h.len() ==> #[trigger] h.push(e).take(i) == h.take(i),
    forall|from: int, v: T| #[trigger] started_since(h, from, v) ==> started_since(h.push(e), from, v),
    start_of(e) is Some ==> forall|from: int| from <= h.len() ==> #[trigger] started_since(h.push(e), from, start_of(e)->0),
{
  assert(h.push(e).drop_last() =~= h);
  assert(h.push(e).take(h.len() as int) =~= h);
  assert forall|i: int| 0 <= i <= h.len() implies #[trigger] h.push(e).take(i) == h.take(i) by {
    assert(h.push(e).take(i) =~= h.take(i));
  }
  assert forall|from: int, v: T| #[trigger] started_since(h, from, v) implies started_since(h.push(e), from, v) by {
    let q = choose|q: int| from <= q < h.len() && start_of(#[trigger] h[q]) == Some(v);
    assert(h.push(e)[q] == h[q]);
  }
  if start_of(e) is Some {
    assert forall|from: int| from <= h.len() implies #[trigger] started_since(h.push(e), from, start_of(e)->0) by {
      assert(h.push(e)[h.len() as int] == e);
    }
  }
}
pub proof fn lemma_valid_push<V: Visitor>(h: Seq<Ev<V::Elem, V::Data>>, vs: Seq<V>, init: Seq<V::Elem>, e: Ev<V::Elem, V::Data>, b: V)
  requires valid(h, init), vsteps(vs, h), ev_ok(h, init, e), vstep(vs.last(), e, b),
  ensures valid(h.push(e), init), vsteps(vs.push(b), h.push(e)), vs.len() == h.len() + 1,
{
  reveal(valid); reveal(vsteps);
  lemma_push(h, e);
  let g = h.push(e);
  assert forall|i: int| 0 <= i < g.len() implies ev_ok(g.take(i), init, #[trigger] g[i]) by {
    if i < h.len() { assert(g.take(i) == h.take(i)); assert(g[i] == h[i]); } else { assert(g.take(i) == h); }
  }
  let ws = vs.push(b);
  assert forall|i: int| 0 <= i < g.len() implies vstep(ws[i], #[trigger] g[i], ws[i + 1]) by {
    if i < h.len() { assert(g[i] == h[i]); assert(vstep(vs[i], h[i], vs[i + 1])); }
  }
}
/// top of the pending actions
pub proof fn lemma_flat_top<T>(s: Seq<T>, kids: Seq<Seq<T>>, rem: Seq<nat>)
  requires kids.len() == s.len() + 1, rem.len() == kids.len(), forall|i: int| 0 <= i < kids.len() ==> #[trigger] rem[i] <= kids[i].len(),
  ensures ({
    let f = flat(s, kids, rem);
    let k = s.len() as int;
    if rem[k] > 0 {
      &&& f.len() > 0 && f.last() == Action::Start(kids[k][rem[k] - 1])
      &&& f.drop_last() == flat(s, kids, rem.update(k, (rem[k] - 1) as nat))
    } else if k > 0 {
      &&& f.len() > 0 && f.last() == Action::End(s.last())
      &&& f.drop_last() == flat(s.drop_last(), kids.drop_last(), rem.drop_last())
    } else { f.len() == 0 }
  }),
{
  let f = flat(s, kids, rem);
  let k = s.len() as int;
  let base = if k == 0 { Seq::<Action<T>>::empty() } else { flat(s.drop_last(), kids.drop_last(), rem.drop_last()).push(Action::End(s.last())) };
  assert(f =~= base + starts(kids[k].take(rem[k] as int)));
  if rem[k] > 0 {
    let r2 = rem.update(k, (rem[k] - 1) as nat);
    assert(r2.drop_last() =~= rem.drop_last());
    assert(flat(s, kids, r2) =~= base + starts(kids[k].take(rem[k] - 1)));
    assert(f.drop_last() =~= flat(s, kids, r2));
  } else if k > 0 {
    assert(f =~= base);
    assert(base.drop_last() =~= flat(s.drop_last(), kids.drop_last(), rem.drop_last()));
  }
}
pub proof fn lemma_flat_enter<T>(s: Seq<T>, kids: Seq<Seq<T>>, rem: Seq<nat>, v: T, ks: Seq<T>)
  requires kids.len() == s.len() + 1, rem.len() == kids.len(),
  ensures flat(s.push(v), kids.push(ks), rem.push(ks.len())) == flat(s, kids, rem).push(Action::End(v)) + starts(ks),
{
  assert(s.push(v).drop_last() =~= s);
  assert(kids.push(ks).drop_last() =~= kids);
  assert(rem.push(ks.len()).drop_last() =~= rem);
  assert(ks.take(ks.len() as int) =~= ks);
}

/// the pending actions are what is left of the frames
pub open spec fn binv<V: Visitor>(h: Seq<Ev<V::Elem, V::Data>>, vs: Seq<V>, init: Seq<V::Elem>, kids: Seq<Seq<V::Elem>>, rem: Seq<nat>, pos: Seq<int>, acts: Seq<Action<V::Elem>>) -> bool {
  inv(h, vs, init, kids, rem, pos) && acts == flat(stk(h), kids, rem)
}
pub open spec fn dec(rem: Seq<nat>) -> Seq<nat> { rem.update(rem.len() - 1, (rem.last() - 1) as nat) }
/// the last action is a `Start`
pub proof fn lemma_start<V: Visitor>(h: Seq<Ev<V::Elem, V::Data>>, vs: Seq<V>, init: Seq<V::Elem>, kids: Seq<Seq<V::Elem>>, rem: Seq<nat>, pos: Seq<int>, acts: Seq<Action<V::Elem>>, v: V::Elem)
  requires binv(h, vs, init, kids, rem, pos, acts), acts.len() > 0, acts.last() == Action::Start(v),
  ensures rem.last() > 0, v == kids.last()[rem.last() - 1], acts.drop_last() == flat(stk(h), kids, dec(rem)), from_ok(h, init, v),
{
  lemma_flat_top(stk(h), kids, rem);
  let k = stk(h).len() as int;
  assert(rem[k] <= kids[k].len());
  assert(kids[k].contains(v));
  if k > 0 {
    assert(ent(stk(h), h, kids, pos, k - 1));
    assert(is_enter(h[pos[k] - 1], stk(h).last()) && h[pos[k] - 1]->Enter_2.contains(v));
  }
}
/// the last action was a `Start` of something not entered
pub proof fn lemma_leaf<V: Visitor>(h: Seq<Ev<V::Elem, V::Data>>, vs: Seq<V>, init: Seq<V::Elem>, kids: Seq<Seq<V::Elem>>, rem: Seq<nat>, pos: Seq<int>, acts: Seq<Action<V::Elem>>, v: V::Elem, e: Ev<V::Elem, V::Data>)
  requires binv(h, vs, init, kids, rem, pos, acts), acts.len() > 0, acts.last() == Action::Start(v),
    e == Ev::Skip(v) || e == Ev::NoEnter(v) || (e is Cyc && e->Cyc_0 == v), ev_ok(h, init, e), vstep(vs.last(), e, vs.last()),
  ensures binv(h.push(e), vs.push(vs.last()), init, kids, dec(rem), pos, acts.drop_last()),
    stk(h.push(e)) == stk(h), entered(h.push(e)) == entered(h), exited(h.push(e)) == exited(h),
    first_cyc(h.push(e)) == (match first_cyc(h) { Some(x) => Some(x), None => if e is Cyc { Some(v) } else { None } }),
{
  lemma_start(h, vs, init, kids, rem, pos, acts, v);
  lemma_push(h, e);
  lemma_valid_push(h, vs, init, e, vs.last());
  let g = h.push(e);
  let r2 = dec(rem);
  assert(stk(g) == stk(h));
  assert(entered(g) == entered(h));
  assert(exited(g) == exited(h));
  let k = stk(h).len() as int;
  assert forall|i: int| 0 <= i < stk(g).len() implies #[trigger] ent(stk(g), g, kids, pos, i) by {
    assert(ent(stk(h), h, kids, pos, i));
  }
  assert forall|i: int| 0 <= i < kids.len() implies #[trigger] r2[i] <= kids[i].len() by { assert(rem[i] <= kids[i].len()); }
  assert forall|i: int, j: int| 0 <= i < kids.len() && r2[i] <= j < kids[i].len() implies started_since(g, pos[i], #[trigger] kids[i][j]) by {
    if i == k && j == r2[k] {
      if k > 0 { assert(ent(stk(h), h, kids, pos, k - 1)); }
      assert(pos[i] <= h.len());
      assert(started_since(g, pos[i], start_of(e)->0));
    } else {
      assert(rem[i] <= j);
      assert(started_since(h, pos[i], kids[i][j]));
    }
  }
  assert(valid(g, init)); assert(vsteps(vs.push(vs.last()), g));
  assert(kids.len() == stk(g).len() + 1 && r2.len() == kids.len() && pos.len() == kids.len());
  assert(kids[0] == init && pos[0] == 0);
  assert(forall|i: int| 0 <= i < stk(g).len() ==> #[trigger] ent(stk(g), g, kids, pos, i));
  assert(forall|i: int| 0 <= i < kids.len() ==> #[trigger] r2[i] <= kids[i].len());
  assert(frames_ok(g, init, kids, r2, pos));
  assert(acts.drop_last() == flat(stk(g), kids, r2));
}
/// the last action was a `Start` of something entered
pub proof fn lemma_entered<V: Visitor>(h: Seq<Ev<V::Elem, V::Data>>, vs: Seq<V>, init: Seq<V::Elem>, kids: Seq<Seq<V::Elem>>, rem: Seq<nat>, pos: Seq<int>, acts: Seq<Action<V::Elem>>, v: V::Elem, d: V::Data, ks: Seq<V::Elem>, b: V)
  requires binv(h, vs, init, kids, rem, pos, acts), acts.len() > 0, acts.last() == Action::Start(v),
    !entered(h).contains(v), vstep(vs.last(), Ev::Enter(v, d, ks), b),
  ensures ({
    let e = Ev::Enter(v, d, ks);
    &&& binv(h.push(e), vs.push(b), init, kids.push(ks), dec(rem).push(ks.len()), pos.push(h.len() as int + 1), acts.drop_last().push(Action::End(v)) + starts(ks))
    &&& forall|x: V::Elem| #[trigger] stk(h.push(e)).contains(x) <==> (stk(h).contains(x) || x == v)
    &&& stk(h.push(e)) == stk(h).push(v) && entered(h.push(e)) == entered(h).insert(v) && exited(h.push(e)) == exited(h)
    &&& first_cyc(h.push(e)) == first_cyc(h)
  }),
{
  let e = Ev::Enter(v, d, ks);
  lemma_start(h, vs, init, kids, rem, pos, acts, v);
  lemma_push(h, e);
  lemma_valid_push(h, vs, init, e, b);
  let g = h.push(e);
  let r2 = dec(rem).push(ks.len());
  let k2 = kids.push(ks);
  let p2 = pos.push(h.len() as int + 1);
  lemma_flat_enter(stk(h), kids, dec(rem), v, ks);
  assert(stk(g) == stk(h).push(v));
  let k = stk(h).len() as int;
  assert forall|i: int| 0 <= i < stk(g).len() implies #[trigger] ent(stk(g), g, k2, p2, i) by {
    if i < k { assert(ent(stk(h), h, kids, pos, i)); }
  }
  assert forall|i: int| 0 <= i < k2.len() implies #[trigger] r2[i] <= k2[i].len() by { if i <= k { assert(rem[i] <= kids[i].len()); } }
  assert forall|i: int, j: int| 0 <= i < k2.len() && r2[i] <= j < k2[i].len() implies started_since(g, p2[i], #[trigger] k2[i][j]) by {
    if i == k + 1 {
    } else if i == k && j == r2[k] {
      if k > 0 { assert(ent(stk(h), h, kids, pos, k - 1)); }
      assert(pos[i] <= h.len());
      assert(started_since(g, pos[i], start_of(e)->0));
    } else {
      assert(rem[i] <= j);
      assert(started_since(h, pos[i], kids[i][j]));
    }
  }
  assert(!stk(h).contains(v));
  assert forall|x: V::Elem| #[trigger] stk(g).contains(x) <==> (stk(h).contains(x) || x == v) by {
    if stk(h).contains(x) { let i = stk(h).index_of(x); assert(stk(g)[i] == x); }
    assert(stk(g)[k] == v);
  }
  assert(stk(g).no_duplicates());
  assert(frames_ok(g, init, k2, r2, p2));
  assert(inv(g, vs.push(b), init, k2, r2, p2));
}
/// the last action is an `End`
pub proof fn lemma_end<V: Visitor>(h: Seq<Ev<V::Elem, V::Data>>, vs: Seq<V>, init: Seq<V::Elem>, kids: Seq<Seq<V::Elem>>, rem: Seq<nat>, pos: Seq<int>, acts: Seq<Action<V::Elem>>, v: V::Elem)
  requires binv(h, vs, init, kids, rem, pos, acts), acts.len() > 0, acts.last() == Action::End(v),
  ensures stk(h).len() > 0, rem.last() == 0, stk(h).last() == v, kids_done(h, v), !exited(h).contains(v), stk(h).contains(v),
    entered(h).contains(v), acts.drop_last() == flat(stk(h).drop_last(), kids.drop_last(), rem.drop_last()),
{
  lemma_flat_top(stk(h), kids, rem);
  let k = stk(h).len() as int;
  assert(stk(h)[k - 1] == v);
  assert(stk(h).contains(v));
  assert(ent(stk(h), h, kids, pos, k - 1));
  assert(all_started(h, pos[k], kids[k])) by {
    assert forall|j: int| 0 <= j < kids[k].len() implies started_since(h, pos[k], #[trigger] kids[k][j]) by { assert(rem[k] <= j); }
  }
  let m = pos[k] - 1;
  assert(is_enter(h[m], v) && h[m]->Enter_2 == kids[k] && all_started(h, m + 1, kids[k]));
}
pub proof fn lemma_exited<V: Visitor>(h: Seq<Ev<V::Elem, V::Data>>, vs: Seq<V>, init: Seq<V::Elem>, kids: Seq<Seq<V::Elem>>, rem: Seq<nat>, pos: Seq<int>, acts: Seq<Action<V::Elem>>, v: V::Elem, b: V)
  requires binv(h, vs, init, kids, rem, pos, acts), acts.len() > 0, acts.last() == Action::End(v),
    vstep(vs.last(), Ev::Exit(v, (stk(h).len() - 1) as nat), b),
  ensures ({
    let e = Ev::Exit(v, (stk(h).len() - 1) as nat);
    &&& binv(h.push(e), vs.push(b), init, kids.drop_last(), rem.drop_last(), pos.drop_last(), acts.drop_last())
    &&& stk(h.push(e)) == stk(h).drop_last() && entered(h.push(e)) == entered(h) && exited(h.push(e)) == exited(h).insert(v)
    &&& first_cyc(h.push(e)) == first_cyc(h)
    &&& forall|x: V::Elem| #[trigger] stk(h.push(e)).contains(x) <==> (stk(h).contains(x) && x != v)
  }),
{
  let e = Ev::Exit(v, (stk(h).len() - 1) as nat);
  lemma_end(h, vs, init, kids, rem, pos, acts, v);
  lemma_push(h, e);
  lemma_valid_push(h, vs, init, e, b);
  let g = h.push(e);
  let k = stk(h).len() as int;
  let r2 = rem.drop_last();
  let k2 = kids.drop_last();
  let p2 = pos.drop_last();
  assert(stk(g) == stk(h).drop_last());
  assert forall|i: int| 0 <= i < stk(g).len() implies #[trigger] ent(stk(g), g, k2, p2, i) by {
    assert(ent(stk(h), h, kids, pos, i));
  }
  assert forall|i: int| 0 <= i < k2.len() implies #[trigger] r2[i] <= k2[i].len() by { assert(rem[i] <= kids[i].len()); }
  assert forall|i: int, j: int| 0 <= i < k2.len() && r2[i] <= j < k2[i].len() implies started_since(g, p2[i], #[trigger] k2[i][j]) by {
    assert(rem[i] <= j);
    assert(started_since(h, pos[i], kids[i][j]));
  }
  assert(stk(g).no_duplicates());
  assert forall|x: V::Elem| #[trigger] stk(g).contains(x) <==> (stk(h).contains(x) && x != v) by {
    if stk(g).contains(x) {
      let i = stk(g).index_of(x);
      assert(stk(h)[i] == x);
      assert(stk(h)[k - 1] == v);
    }
    if stk(h).contains(x) && x != v { let i = stk(h).index_of(x); assert(stk(g)[i] == x); }
  }
  assert(frames_ok(g, init, k2, r2, p2));
  assert(inv(g, vs.push(b), init, k2, r2, p2));
}
pub proof fn lemma_done<V: Visitor>(h: Seq<Ev<V::Elem, V::Data>>, vs: Seq<V>, init: Seq<V::Elem>, kids: Seq<Seq<V::Elem>>, rem: Seq<nat>, pos: Seq<int>, acts: Seq<Action<V::Elem>>)
  requires binv(h, vs, init, kids, rem, pos, acts), acts.len() == 0,
  ensures stk(h).len() == 0, run_ok(h, vs, init),
{
  lemma_flat_top(stk(h), kids, rem);
  assert forall|j: int| 0 <= j < init.len() implies started_since(h, 0, #[trigger] init[j]) by { assert(started_since(h, pos[0], kids[0][j])); }
}

pub proof fn lemma_flat_len<T>(s: Seq<T>, kids: Seq<Seq<T>>, rem: Seq<nat>)
  ensures flat(s, kids, rem).len() >= s.len(),
  decreases s.len(),
{
  if s.len() > 0 { lemma_flat_len(s.drop_last(), kids.drop_last(), rem.drop_last()); }
}
/// `collect` into a `Work` calls `FromIterator::from_iter` (assumed of std), verified below as an inherent function
impl<T> vstd::std_specs::iter::FromIteratorSpecImpl<T> for Work<T> {
  open spec fn from_iter_ensures(remaining: Seq<T>, s: Self) -> bool { s.actions@ == starts(remaining) }
}
impl<T> FromIterator<T> for Work<T> {
  #[verifier::external_body]
  fn from_iter<I: IntoIterator<Item = T>>(iter: I) -> Self { unimplemented!() }
}
//@splice crates/topo-sort/src/lib.rs
inherent Extend@Work
inherent FromIterator@Work
inject trait Set
    /// the elements
    spec fn elems(&self) -> VSet<Self::Elem>;
    /// the representation is lawful (lawful ordering, hashing)
    spec fn lawful(&self) -> bool;
inject trait Visitor
    /// what `enter` may return
    spec fn enter_rel(&self, value: Self::Elem, r: Option<Self::Data>) -> bool;
    /// what `process` may do, pushing `kids`
    spec fn process_rel(a: &Self, value: Self::Elem, data: Self::Data, b: &Self, kids: Seq<Self::Elem>) -> bool;
    spec fn exit_rel(a: &Self, value: Self::Elem, level: nat, b: &Self) -> bool;
    /// the visitor's own assumptions (a lawful element type, say)
    spec fn ok(&self) -> bool;
    /// a finite set that is not left by following pushed elements
    spec fn universe(&self) -> VSet<Self::Elem>;
inject impl Set@BTreeSet
    open spec fn elems(&self) -> VSet<T> { self@ }
    open spec fn lawful(&self) -> bool { vstd::laws_cmp::obeys_cmp::<T>() }
inject impl Set@HashSet
    open spec fn elems(&self) -> VSet<T> { self@ }
    open spec fn lawful(&self) -> bool { vstd::std_specs::hash::obeys_key_model::<T>() && vstd::std_specs::hash::builds_valid_hashers::<BuildHasherDefault<S>>() }
inject impl Set@HashSet#2
    open spec fn elems(&self) -> VSet<T> { self@ }
    open spec fn lawful(&self) -> bool { vstd::std_specs::hash::obeys_key_model::<T>() && vstd::std_specs::hash::builds_valid_hashers::<rustc_hash::FxBuildHasher>() }
fn trait Visitor::enter
  ret r
  spec
    requires self.ok(), self.universe().contains(value),
    ensures self.enter_rel(value, r),
fn trait Visitor::process
  spec
    requires old(self).ok(), old(self).universe().contains(value), old(self).enter_rel(value, Some(data)),
    ensures final(self).ok(), final(self).universe() == old(self).universe(),
      exists|kids: Seq<Self::Elem>| #[trigger] Self::process_rel(old(self), value, data, final(self), kids)
        && (forall|i: int| 0 <= i < kids.len() ==> old(self).universe().contains(#[trigger] kids[i]))
        && final(work).actions@ == old(work).actions@ + starts(kids),
fn trait Visitor::exit
  spec
    requires old(self).ok(),
    ensures final(self).ok(), final(self).universe() == old(self).universe(), Self::exit_rel(old(self), value, level as nat, final(self)),
fn trait Set::contains
  ret r
  spec
    ensures self.lawful() ==> r == self.elems().contains(*value),
fn trait Set::insert
  ret r
  spec
    ensures old(self).lawful() ==> final(self).lawful() && final(self).elems() == old(self).elems().insert(value) && r == !old(self).elems().contains(value),
fn trait Set::remove
  ret r
  spec
    ensures old(self).lawful() ==> final(self).lawful() && final(self).elems() == old(self).elems().remove(*value) && r == old(self).elems().contains(*value),
fn trait Set::is_empty
  ret r
  spec
    ensures self.lawful() ==> r == (self.elems() =~= VSet::<Self::Elem>::empty()),
fn Default@Work::default
  ret r
  spec
    ensures r.actions@ == Seq::<Action<T>>::empty(),
fn Work::push
  spec
    ensures final(self).actions@ == old(self).actions@.push(Action::Start(value)),
fn Extend@Work::extend
  spec
    requires into_iter_spec(iter).obeys_prophetic_iter_laws(), into_iter_spec(iter).decrease() is Some,
    ensures final(self).actions@ == old(self).actions@ + starts(into_iter_spec(iter).remaining()),
  loop 0 it wrap=x_into_iter
    invariant it.iter.obeys_prophetic_iter_laws(), it.iter.decrease() is Some, it.snapshot == into_iter_spec(iter),
      self.actions@ =~= old(self).actions@ + starts(it.seq().take(it.index@ as int)),
  at end
    proof { assert(self.actions@ =~= old(self).actions@ + starts(into_iter_spec(iter).remaining())); }
fn FromIterator@Work::from_iter
  ret r
  spec
    requires into_iter_spec(iter).obeys_prophetic_iter_laws(), into_iter_spec(iter).decrease() is Some,
    ensures r.actions@ == starts(into_iter_spec(iter).remaining()),
  at tail
    proof { assert(ret.actions@ =~= starts(into_iter_spec(iter).remaining())); }
fn Work::run
  ret ret
  spec
    requires
      clone_ok::<T>(), old(visitor).ok(),
      default_ok::<V::Set>(), forall|s: V::Set| #[trigger] s.elems() == VSet::<T>::empty() ==> s.lawful(),
      exists|init: Seq<T>| #[trigger] starts(init) == self.actions@ && (forall|i: int| 0 <= i < init.len() ==> old(visitor).universe().contains(#[trigger] init[i])),
    ensures
      forall|init: Seq<T>| #[trigger] starts(init) == self.actions@ ==> exists|h: Seq<Ev<T, V::Data>>, vs: Seq<V>|
        #[trigger] run_ok(h, vs, init) && vs[0] == *old(visitor) && vs.last() == *final(visitor)
        && ret.done.elems() == exited(h) && ret.cycle == first_cyc(h),
  at start
    let ghost init0 = unstart(self.actions@);
    let ghost acts0 = self.actions@;
    let ghost mut h: Seq<Ev<T, V::Data>> = Seq::empty();
    let ghost mut vs: Seq<V> = seq![*visitor];
    let ghost mut kids: Seq<Seq<T>> = seq![init0];
    let ghost mut rem: Seq<nat> = seq![init0.len()];
    let ghost mut pos: Seq<int> = seq![0int];
    proof {
      assert forall|init: Seq<T>| #[trigger] starts(init) == acts0 implies init == init0 by {
        assert forall|i: int| 0 <= i < init.len() implies init[i] == init0[i] by { assert(starts(init)[i] == acts0[i]); }
        assert(init =~= init0);
      }
      assert(init0.take(init0.len() as int) =~= init0);
      assert(flat(Seq::<T>::empty(), kids, rem) =~= acts0);
      assert(stk(h) =~= Seq::<T>::empty());
      reveal(valid); reveal(vsteps);
      assert(inv(h, vs, init0, kids, rem, pos));
    }
  loop 0
    invariant
      clone_ok::<T>(), starts(init0) == acts0, vs[0] == *old(visitor),
      binv(h, vs, init0, kids, rem, pos, self_v.actions@), self_v.actions.len() == self_v.actions@.len(),
      vs.len() > 0, vs.last() == *visitor,
      cur.lawful(), ret.done.lawful(),
      ret.done.elems() == exited(h),
      forall|v: T| #[trigger] cur.elems().contains(v) <==> stk(h).contains(v),
      level == stk(h).len(),
      ret.cycle == first_cyc(h),
      visitor.universe() == old(visitor).universe(), visitor.ok(),
      forall|i: int, j: int| 0 <= i < kids.len() && 0 <= j < kids[i].len() ==> visitor.universe().contains(#[trigger] kids[i][j]),
      entered(h).subset_of(visitor.universe()),
    ensures
      self_v.actions@.len() == 0,
    decreases visitor.universe().len() - entered(h).len(), self_v.actions@.len(),
  at call contains 0 before
    let ghost v = value;
    proof { lemma_start(h, vs, init0, kids, rem, pos, acts, v); assert(kids[kids.len() - 1][rem.last() - 1] == v); assert(visitor.universe().contains(v)); }
  at loop 0 start
    let ghost acts = self_v.actions@.push(action);
    proof { assert(acts.drop_last() =~= self_v.actions@); assert(acts =~= flat(stk(h), kids, rem)); lemma_flat_len(stk(h), kids, dec(rem)); assert(acts.len() <= usize::MAX); }
  at continue 0 before
    proof {
      lemma_leaf(h, vs, init0, kids, rem, pos, acts, v, Ev::Skip(v));
      h = h.push(Ev::Skip(v)); vs = vs.push(vs.last()); rem = dec(rem);
    }
  at continue 1 before
    proof {
      lemma_leaf(h, vs, init0, kids, rem, pos, acts, v, Ev::NoEnter(v));
      h = h.push(Ev::NoEnter(v)); vs = vs.push(vs.last()); rem = dec(rem);
    }
  at call push 0 after
    proof { lemma_flat_len(stk(h), kids, dec(rem)); assert(self_v.actions.len() > stk(h).len()); }
  at continue 2 before
    proof {
      lemma_leaf(h, vs, init0, kids, rem, pos, acts, v, Ev::Cyc(v, data));
      h = h.push(Ev::Cyc(v, data)); vs = vs.push(vs.last()); rem = dec(rem);
    }
  at call process 0 before
    let ghost before = self_v.actions@;
    let ghost data0 = data;
    let ghost vis0 = *visitor;
    proof { assert(vis0.enter_rel(v, Some(data0))); }
  at call process 0 after
    proof {
      let ks = choose|ks: Seq<T>| #[trigger] V::process_rel(&vis0, v, data0, visitor, ks) && (forall|i: int| 0 <= i < ks.len() ==> vis0.universe().contains(#[trigger] ks[i])) && self_v.actions@ == before + starts(ks);
      assert(vs.last().enter_rel(v, Some(data0)));
      assert(V::process_rel(&vs.last(), v, data0, visitor, ks));
      vstd::set_lib::lemma_len_subset(entered(h).insert(v), visitor.universe());
      lemma_entered(h, vs, init0, kids, rem, pos, acts, v, data0, ks, *visitor);
      h = h.push(Ev::Enter(v, data0, ks)); vs = vs.push(*visitor); kids = kids.push(ks); pos = pos.push(h.len() as int); rem = dec(rem).push(ks.len());
    }
  at call checked_sub 0 before
    let ghost v = value;
    proof { lemma_end(h, vs, init0, kids, rem, pos, acts, v); }
  closure 0 || -> (r: usize)
    requires false,
  at call exit 0 after
    proof {
      lemma_exited(h, vs, init0, kids, rem, pos, acts, v, *visitor);
      h = h.push(Ev::Exit(v, level as nat)); vs = vs.push(*visitor); kids = kids.drop_last(); pos = pos.drop_last(); rem = rem.drop_last();
    }
  at loop 0 after
    proof {
      lemma_done(h, vs, init0, kids, rem, pos, self_v.actions@);
      assert(cur.elems() =~= VSet::<T>::empty());
    }
//@end


pub mod graph { use super::*;
broadcast use {vstd::std_specs::btree::group_btree_axioms, xstd::group_xstd};
use crate::xstd::IterShim;
use crate::Visitor as _;
use crate::Set as _;

// ---------------------------------------------------------------- specification
pub open spec fn edge<T>(g: Map<T, BTreeSet<T>>, a: T, b: T) -> bool { g.contains_key(a) && g[a]@.contains(b) }
pub open spec fn is_node<T>(g: Map<T, BTreeSet<T>>, x: T) -> bool { g.contains_key(x) || exists|a: T| #[trigger] edge(g, a, x) }
pub open spec fn is_path<T>(g: Map<T, BTreeSet<T>>, p: Seq<T>) -> bool { forall|i: int| 0 <= i < p.len() - 1 ==> edge(g, #[trigger] p[i], p[i + 1]) }
/// `b` can be reached from `a` by one or more edges
pub open spec fn reaches<T>(g: Map<T, BTreeSet<T>>, a: T, b: T) -> bool {
  exists|p: Seq<T>| #[trigger] is_path(g, p) && p.len() >= 2 && p[0] == a && p.last() == b
}
pub open spec fn topo_ok<T>(g: Map<T, BTreeSet<T>>, order: Seq<T>) -> bool {
  &&& order.no_duplicates()
  &&& forall|x: T| #[trigger] order.contains(x) <==> is_node(g, x)
  &&& forall|a: T, b: T| #[trigger] edge(g, a, b) ==> order.index_of(b) < order.index_of(a)
}
pub open spec fn nodes<T>(g: Map<T, BTreeSet<T>>) -> VSet<T> decreases g.dom().len()
{
  if g.dom().len() == 0 { VSet::empty() } else {
    let k = g.dom().choose();
    nodes(g.remove(k)).insert(k).union(g[k]@)
  }
}
pub proof fn lemma_nodes<T>(g: Map<T, BTreeSet<T>>)
  ensures forall|x: T| #[trigger] nodes(g).contains(x) <==> is_node(g, x),
  decreases g.dom().len(),
{
  broadcast use vstd::set::group_set_lemmas;
  if g.dom().len() == 0 {
    assert(g.dom() =~= VSet::<T>::empty());
  } else {
    let k = g.dom().choose();
    assert(g.dom().contains(k));
    let g2 = g.remove(k);
    lemma_nodes(g2);
    assert forall|x: T| #[trigger] nodes(g).contains(x) <==> is_node(g, x) by {
      assert(nodes(g) == nodes(g2).insert(k).union(g[k]@));
      if nodes(g).contains(x) {
        assert(nodes(g2).contains(x) || x == k || g[k]@.contains(x));
        if g[k]@.contains(x) { assert(edge(g, k, x)); }
        else if x == k {}
        else if !g2.contains_key(x) { let a = choose|a: T| #[trigger] edge(g2, a, x); assert(edge(g, a, x)); }
      }
      if is_node(g, x) {
        if g.contains_key(x) { if x != k { assert(g2.contains_key(x)); } }
        else { let a = choose|a: T| #[trigger] edge(g, a, x); if a != k { assert(edge(g2, a, x)); } }
      }
    }
  }
}
/// a topological order excludes cycles
pub proof fn lemma_order_path<T>(g: Map<T, BTreeSet<T>>, order: Seq<T>, p: Seq<T>)
  requires topo_ok(g, order), is_path(g, p), p.len() >= 2,
  ensures order.index_of(p.last()) < order.index_of(p[0]),
  decreases p.len(),
{
  assert(edge(g, p[p.len() - 2], p[p.len() - 2 + 1]));
  if p.len() > 2 {
    let q = p.drop_last();
    assert forall|i: int| 0 <= i < q.len() - 1 implies edge(g, #[trigger] q[i], q[i + 1]) by { assert(edge(g, p[i], p[i + 1])); }
    lemma_order_path(g, order, q);
  }
}
pub proof fn lemma_acyclic<T>(g: Map<T, BTreeSet<T>>, order: Seq<T>)
  requires topo_ok(g, order),
  ensures forall|x: T| !#[trigger] reaches(g, x, x),
{
  assert forall|x: T| !#[trigger] reaches(g, x, x) by {
    if reaches(g, x, x) {
      let p = choose|p: Seq<T>| #[trigger] is_path(g, p) && p.len() >= 2 && p[0] == x && p.last() == x;
      lemma_order_path(g, order, p);
    }
  }
}
// ---------------------------------------------------------------- from runs to orders
pub open spec fn ghist<T>(g: Map<T, BTreeSet<T>>, h: Seq<Ev<T, ()>>) -> bool {
  forall|i: int| 0 <= i < h.len() ==> gev(g, #[trigger] h[i])
}
pub open spec fn gev<T>(g: Map<T, BTreeSet<T>>, e: Ev<T, ()>) -> bool {
  !(e is NoEnter) && (e is Enter ==> forall|x: T| #[trigger] e->Enter_2.contains(x) <==> edge(g, e->Enter_0, x))
}
pub proof fn lemma_take<T, D>(h: Seq<Ev<T, D>>, init: Seq<T>, n: int)
  requires valid(h, init), 0 <= n <= h.len(),
  ensures valid(h.take(n), init), n > 0 ==> ev_ok(h.take(n).drop_last(), init, h.take(n).last()), n > 0 ==> h.take(n).drop_last() == h.take(n - 1),
{
  reveal(valid);
  let p = h.take(n);
  assert forall|i: int| 0 <= i < p.len() implies ev_ok(p.take(i), init, #[trigger] p[i]) by { assert(p.take(i) =~= h.take(i)); assert(p[i] == h[i]); }
  if n > 0 { assert(p.drop_last() =~= h.take(n - 1)); assert(p.last() == h[n - 1]); }
}
/// facts about all valid histories
pub open spec fn hfacts<T, D>(h: Seq<Ev<T, D>>) -> bool {
  &&& forall|v: T| #[trigger] entered(h).contains(v) <==> (stk(h).contains(v) || exited(h).contains(v))
  &&& forall|i: int| 0 <= i < h.len() && (#[trigger] h[i]) is Enter ==> entered(h).contains(h[i]->Enter_0)
  &&& forall|i: int, j: int| 0 <= i < j < h.len() && (#[trigger] h[i]) is Enter && (#[trigger] h[j]) is Enter ==> h[i]->Enter_0 != h[j]->Enter_0
  &&& forall|i: int| 0 <= i < h.len() && (#[trigger] h[i]) is Skip ==> exited(h).contains(h[i]->Skip_0)
}
pub open spec fn efacts<T, D>(h: Seq<Ev<T, D>>) -> bool {
  &&& forall|v: T| #[trigger] exits(h).contains(v) <==> exited(h).contains(v)
  &&& exits(h).no_duplicates()
}
pub proof fn lemma_prev<T, D>(h: Seq<Ev<T, D>>, init: Seq<T>)
  requires valid(h, init), h.len() > 0,
  ensures valid(h.drop_last(), init), ev_ok(h.drop_last(), init, h.last()),
{
  lemma_take(h, init, h.len() as int);
  assert(h.take(h.len() as int) =~= h);
  lemma_take(h, init, h.len() - 1);
}
pub proof fn lemma_push_contains<T>(s: Seq<T>, v: T)
  ensures forall|x: T| #[trigger] s.push(v).contains(x) <==> (s.contains(x) || x == v),
{
  assert forall|x: T| #[trigger] s.push(v).contains(x) <==> (s.contains(x) || x == v) by {
    if s.contains(x) { let i = s.index_of(x); assert(s.push(v)[i] == x); }
    assert(s.push(v)[s.len() as int] == v);
  }
}
pub proof fn lemma_efacts<T, D>(h: Seq<Ev<T, D>>, init: Seq<T>)
  requires valid(h, init),
  ensures efacts(h),
  decreases h.len(),
{
  if h.len() > 0 {
    lemma_prev(h, init);
    let p = h.drop_last();
    lemma_efacts(p, init);
    match h.last() {
      Ev::Exit(v, _) => {
        assert(exits(h) == exits(p).push(v));
        assert(exited(h) == exited(p).insert(v));
        assert(!exits(p).contains(v));
        lemma_push_contains(exits(p), v);
      }
      _ => { assert(exits(h) == exits(p)); assert(exited(h) == exited(p)); }
    }
  }
}
pub proof fn lemma_hfacts<T, D>(h: Seq<Ev<T, D>>, init: Seq<T>)
  requires valid(h, init),
  ensures hfacts(h),
  decreases h.len(),
{
  if h.len() > 0 {
    lemma_prev(h, init);
    let p = h.drop_last();
    lemma_hfacts(p, init);
    let e = h.last();
    assert forall|i: int| 0 <= i < p.len() implies #[trigger] h[i] == p[i] by {}
    match e {
      Ev::Enter(v, _, _) => {
        assert(stk(h) == stk(p).push(v));
        assert(entered(h) == entered(p).insert(v));
        assert(exited(h) == exited(p));
        lemma_push_contains(stk(p), v);
      }
      Ev::Exit(v, _) => {
        assert(stk(h) == stk(p).drop_last());
        assert(stk(h).push(v) =~= stk(p));
        assert(entered(h) == entered(p));
        assert(exited(h) == exited(p).insert(v));
        lemma_push_contains(stk(h), v);
      }
      _ => { assert(stk(h) == stk(p)); assert(entered(h) == entered(p)); assert(exited(h) == exited(p)); }
    }
  }
}
pub proof fn lemma_facts<T, D>(h: Seq<Ev<T, D>>, init: Seq<T>)
  requires valid(h, init),
  ensures hfacts(h), efacts(h),
{
  lemma_hfacts(h, init);
  lemma_efacts(h, init);
}
/// an element further up was entered later
pub open spec fn stk_ordered<T, D>(h: Seq<Ev<T, D>>) -> bool {
  forall|i: int, j: int, p: int, q: int| 0 <= i < j < stk(h).len() && 0 <= p < h.len() && 0 <= q < h.len()
    && #[trigger] is_enter(h[p], stk(h)[i]) && #[trigger] is_enter(h[q], stk(h)[j]) ==> p < q
}
pub proof fn lemma_stk_ordered<T, D>(h: Seq<Ev<T, D>>, init: Seq<T>)
  requires valid(h, init),
  ensures stk_ordered(h),
  decreases h.len(),
{
  if h.len() > 0 {
    lemma_take(h, init, h.len() as int);
    assert(h.take(h.len() as int) =~= h);
    lemma_take(h, init, h.len() - 1);
    let o = h.drop_last();
    lemma_stk_ordered(o, init);
    lemma_facts(o, init);
    assert forall|i: int, j: int, p: int, q: int| 0 <= i < j < stk(h).len() && 0 <= p < h.len() && 0 <= q < h.len()
      && #[trigger] is_enter(h[p], stk(h)[i]) && #[trigger] is_enter(h[q], stk(h)[j]) implies p < q by {
      if p < o.len() && q < o.len() {
        assert(h[p] == o[p] && h[q] == o[q]);
        if h.last() is Enter {
          let v = h.last()->Enter_0;
          assert(stk(h) == stk(o).push(v));
          if j < stk(o).len() { assert(stk(h)[i] == stk(o)[i] && stk(h)[j] == stk(o)[j]); assert(is_enter(o[p], stk(o)[i]) && is_enter(o[q], stk(o)[j])); }
          else { assert(stk(h)[j] == v); assert(entered(o).contains(v)); }
        } else if h.last() is Exit {
          assert(stk(h) == stk(o).drop_last());
          assert(is_enter(o[p], stk(o)[i]) && is_enter(o[q], stk(o)[j]));
        } else { assert(is_enter(o[p], stk(o)[i]) && is_enter(o[q], stk(o)[j])); }
      } else if p == o.len() {
        assert(h[p] == h.last());
        let v = h.last()->Enter_0;
        assert(stk(h) == stk(o).push(v));
        assert(stk(o)[i] == v);
        assert(stk(o).contains(v));
        assert(entered(o).contains(v));
      }
    }
  }
}
/// entered elements are nodes, elements in progress form a path
pub proof fn lemma_graph_stk<T>(g: Map<T, BTreeSet<T>>, h: Seq<Ev<T, ()>>, init: Seq<T>)
  requires valid(h, init), ghist(g, h), forall|x: T| #[trigger] init.contains(x) <==> g.contains_key(x),
  ensures is_path(g, stk(h)), forall|x: T| #[trigger] entered(h).contains(x) ==> is_node(g, x),
  decreases h.len(),
{
  if h.len() > 0 {
    lemma_take(h, init, h.len() as int);
    assert(h.take(h.len() as int) =~= h);
    lemma_take(h, init, h.len() - 1);
    let o = h.drop_last();
    assert forall|i: int| 0 <= i < o.len() implies gev(g, #[trigger] o[i]) by { assert(gev(g, h[i])); }
    lemma_graph_stk(g, o, init);
    broadcast use vstd::set::group_set_lemmas;
    match h.last() {
      Ev::Enter(v, _, _) => {
        assert(stk(h) == stk(o).push(v));
        lemma_from(g, o, init, v);
        assert(entered(h) == entered(o).insert(v));
        assert forall|i: int| 0 <= i < stk(h).len() - 1 implies edge(g, #[trigger] stk(h)[i], stk(h)[i + 1]) by {
          if i + 1 < stk(o).len() { assert(edge(g, stk(o)[i], stk(o)[i + 1])); }
        }
      }
      Ev::Exit(..) => {
        assert(stk(h) == stk(o).drop_last());
        assert(entered(h) == entered(o));
        assert forall|i: int| 0 <= i < stk(h).len() - 1 implies edge(g, #[trigger] stk(h)[i], stk(h)[i + 1]) by {
          assert(edge(g, stk(o)[i], stk(o)[i + 1]));
        }
      }
      _ => { assert(entered(h) == entered(o)); }
    }
  } else { assert(entered(h) == VSet::<T>::empty()); }
}
pub proof fn lemma_from<T>(g: Map<T, BTreeSet<T>>, h: Seq<Ev<T, ()>>, init: Seq<T>, v: T)
  requires ghist(g, h), from_ok(h, init, v), forall|x: T| #[trigger] init.contains(x) <==> g.contains_key(x),
  ensures is_node(g, v), stk(h).len() > 0 ==> edge(g, stk(h).last(), v),
{
  if stk(h).len() > 0 {
    let m = choose|m: int| 0 <= m < h.len() && is_enter(#[trigger] h[m], stk(h).last()) && h[m]->Enter_2.contains(v);
    assert(gev(g, h[m]));
    assert(edge(g, stk(h).last(), v));
  }
}
pub proof fn lemma_first_cyc<T, D>(h: Seq<Ev<T, D>>)
  ensures match first_cyc(h) {
    Some(w) => exists|i: int| 0 <= i < h.len() && (#[trigger] h[i]) is Cyc && h[i]->Cyc_0 == w,
    None => forall|i: int| 0 <= i < h.len() ==> !((#[trigger] h[i]) is Cyc),
  },
  decreases h.len(),
{
  if h.len() > 0 {
    let p = h.drop_last();
    lemma_first_cyc(p);
    assert forall|i: int| 0 <= i < p.len() implies #[trigger] h[i] == p[i] by {}
    match first_cyc(p) {
      Some(w) => {
        let i = choose|i: int| 0 <= i < p.len() && (#[trigger] p[i]) is Cyc && p[i]->Cyc_0 == w;
        assert(h[i] is Cyc);
      }
      None => {
        assert(h.last() == h[h.len() - 1]);
        assert forall|i: int| first_cyc(h) is None && 0 <= i < h.len() implies !((#[trigger] h[i]) is Cyc) by { if i < p.len() { assert(!(p[i] is Cyc)); } }
      }
    }
  }
}
/// a recorded cycle is one
pub proof fn lemma_cycle<T>(g: Map<T, BTreeSet<T>>, h: Seq<Ev<T, ()>>, init: Seq<T>, w: T)
  requires valid(h, init), ghist(g, h), first_cyc(h) == Some(w), forall|x: T| #[trigger] init.contains(x) <==> g.contains_key(x),
  ensures reaches(g, w, w),
{
  lemma_first_cyc(h);
  let i = choose|i: int| 0 <= i < h.len() && (#[trigger] h[i]) is Cyc && h[i]->Cyc_0 == w;
  lemma_take(h, init, i + 1);
  lemma_take(h, init, i);
  let p = h.take(i);
  assert(h.take(i + 1).last() == h[i]);
  assert(ev_ok(p, init, h[i]));
  assert forall|k: int| 0 <= k < p.len() implies gev(g, #[trigger] p[k]) by { assert(gev(g, h[k])); }
  lemma_graph_stk(g, p, init);
  lemma_from(g, p, init, w);
  let a = stk(p).index_of(w);
  let path = stk(p).subrange(a, stk(p).len() as int).push(w);
  assert forall|k: int| 0 <= k < path.len() - 1 implies edge(g, #[trigger] path[k], path[k + 1]) by {
    if k + 1 < path.len() - 1 { assert(edge(g, stk(p)[a + k], stk(p)[a + k + 1])); }
  }
  assert(is_path(g, path));
}
/// everything pushed by `v` is exited before it, when no element was reached while in progress
pub proof fn lemma_kids_before<T>(g: Map<T, BTreeSet<T>>, p: Seq<Ev<T, ()>>, init: Seq<T>, v: T)
  requires valid(p, init), ghist(g, p), first_cyc(p) is None, kids_done(p, v), stk(p).len() > 0, stk(p).last() == v, !exited(p).contains(v),
  ensures forall|x: T| #[trigger] edge(g, v, x) ==> exited(p).contains(x),
{
  lemma_first_cyc(p);
  lemma_facts(p, init);
  lemma_stk_ordered(p, init);
  let m = choose|m: int| 0 <= m < p.len() && is_enter(#[trigger] p[m], v) && all_started(p, m + 1, p[m]->Enter_2);
  assert(gev(g, p[m]));
  let ks = p[m]->Enter_2;
  assert forall|x: T| #[trigger] edge(g, v, x) implies exited(p).contains(x) by {
    assert(ks.contains(x));
    let j = ks.index_of(x);
    assert(started_since(p, m + 1, ks[j]));
    let q = choose|q: int| m + 1 <= q < p.len() && start_of(#[trigger] p[q]) == Some(x);
    assert(gev(g, p[q]));
    assert(!(p[q] is Cyc));
    if p[q] is Enter {
      assert(entered(p).contains(x));
      if stk(p).contains(x) {
        let k = stk(p).index_of(x);
        let l = stk(p).len() - 1;
        assert(stk(p)[l] == v);
        if k < l {
          assert(is_enter(p[q], stk(p)[k]) && is_enter(p[m], stk(p)[l]));
        } else {
          assert(x == v);
          assert(p[m]->Enter_0 == p[q]->Enter_0);
        }
      }
    }
  }
}
pub proof fn lemma_order<T>(g: Map<T, BTreeSet<T>>, h: Seq<Ev<T, ()>>, init: Seq<T>)
  requires valid(h, init), ghist(g, h), first_cyc(h) is None,
  ensures forall|a: T, b: T| #[trigger] edge(g, a, b) && exits(h).contains(a) ==> exits(h).contains(b) && exits(h).index_of(b) < exits(h).index_of(a),
  decreases h.len(),
{
  if h.len() > 0 {
    lemma_take(h, init, h.len() as int);
    assert(h.take(h.len() as int) =~= h);
    lemma_take(h, init, h.len() - 1);
    let o = h.drop_last();
    assert forall|i: int| 0 <= i < o.len() implies gev(g, #[trigger] o[i]) by { assert(gev(g, h[i])); }
    lemma_order(g, o, init);
    lemma_facts(o, init);
    lemma_facts(h, init);
    match h.last() {
      Ev::Exit(v, _) => {
        lemma_kids_before(g, o, init, v);
        assert(exits(h) == exits(o).push(v));
        assert forall|a: T, b: T| #[trigger] edge(g, a, b) && exits(h).contains(a) implies exits(h).contains(b) && exits(h).index_of(b) < exits(h).index_of(a) by {
          lemma_index_push(exits(o), v, a);
          lemma_index_push(exits(o), v, b);
        }
      }
      _ => {}
    }
  }
}
pub proof fn lemma_index_push<T>(s: Seq<T>, v: T, x: T)
  requires s.push(v).no_duplicates(),
  ensures s.contains(x) ==> s.push(v).contains(x) && s.push(v).index_of(x) == s.index_of(x) && 0 <= s.index_of(x) < s.len(),
    x == v ==> s.push(v).contains(x) && s.push(v).index_of(x) == s.len(), s.push(v).contains(x) ==> s.contains(x) || x == v,
{
  let t = s.push(v);
  if s.contains(x) { let i = s.index_of(x); assert(t[i] == x); assert(t[t.index_of(x)] == x); }
  assert(t[s.len() as int] == v);
  if t.contains(x) { let i = t.index_of(x); if i < s.len() { assert(s[i] == x); } }
}
/// a complete run over a graph gives an order or a cycle
pub proof fn lemma_graph_run<T>(g: Map<T, BTreeSet<T>>, h: Seq<Ev<T, ()>>, init: Seq<T>)
  requires valid(h, init), ghist(g, h), stk(h).len() == 0, all_started(h, 0, init), forall|x: T| #[trigger] init.contains(x) <==> g.contains_key(x),
  ensures first_cyc(h) is None ==> topo_ok(g, exits(h)), first_cyc(h) is Some ==> reaches(g, first_cyc(h)->0, first_cyc(h)->0),
{
  if first_cyc(h) is Some {
    lemma_cycle(g, h, init, first_cyc(h)->0);
  } else {
    lemma_facts(h, init);
    lemma_order(g, h, init);
    lemma_graph_stk(g, h, init);
    lemma_first_cyc(h);
    assert forall|x: T| g.contains_key(x) implies #[trigger] exits(h).contains(x) by {
      assert(init.contains(x));
      let j = init.index_of(x);
      assert(started_since(h, 0, init[j]));
      let q = choose|q: int| 0 <= q < h.len() && start_of(#[trigger] h[q]) == Some(x);
      assert(gev(g, h[q]));
      assert(!(h[q] is Cyc));
    }
    assert forall|x: T| #[trigger] exits(h).contains(x) <==> is_node(g, x) by {
      if exits(h).contains(x) { assert(exited(h).contains(x)); assert(entered(h).contains(x)); }
      if is_node(g, x) && !g.contains_key(x) { let a = choose|a: T| #[trigger] edge(g, a, x); assert(exits(h).contains(a)); }
    }
    assert forall|a: T, b: T| #[trigger] edge(g, a, b) implies exits(h).index_of(b) < exits(h).index_of(a) by {
      assert(exits(h).contains(a));
    }
  }
}
pub proof fn lemma_vs_order<T: Copy + Eq + Ord>(g: Map<T, BTreeSet<T>>, h: Seq<Ev<T, ()>>, vs: Seq<Visitor<'_, T>>)
  requires vsteps(vs, h), vs[0].graph@ == g,
  ensures vs.last().order@ == vs[0].order@ + exits(h), vs.last().graph@ == g, ghist(g, h),
  decreases h.len(),
{
  reveal(vsteps);
  if h.len() == 0 {
    assert(vs[0].order@ + exits(h) =~= vs[0].order@);
  } else {
    let o = h.drop_last();
    let ws = vs.drop_last();
    assert forall|i: int| 0 <= i < o.len() implies vstep(ws[i], #[trigger] o[i], ws[i + 1]) by { assert(o[i] == h[i]); assert(vstep(vs[i], h[i], vs[i + 1])); }
    lemma_vs_order(g, o, ws);
    let n = h.len() - 1;
    assert(vstep(vs[n], h[n], vs[n + 1]));
    assert(gev(g, h[n]));
    assert forall|i: int| 0 <= i < h.len() implies gev(g, #[trigger] h[i]) by { if i < n { assert(gev(g, o[i])); } }
    assert(vs.last().order@ =~= vs[0].order@ + exits(h));
  }
}

//@splice crates/topo-sort/src/graph.rs
rewrite `copied` => `x_copied`
inject impl Visitor@Visitor
    open spec fn enter_rel(&self, value: T, r: Option<()>) -> bool { r is Some }
    open spec fn process_rel(a: &Self, value: T, data: (), b: &Self, kids: Seq<T>) -> bool {
      a.graph == b.graph && a.order@ == b.order@ && (forall|x: T| #[trigger] kids.contains(x) <==> edge(a.graph@, value, x))
    }
    open spec fn exit_rel(a: &Self, value: T, level: nat, b: &Self) -> bool { a.graph == b.graph && b.order@ == a.order@.push(value) }
    open spec fn ok(&self) -> bool { vstd::laws_cmp::obeys_cmp::<T>() }
    open spec fn universe(&self) -> VSet<T> { nodes(self.graph@) }
fn get
  ret r
  spec
    requires vstd::laws_cmp::obeys_cmp::<T>(), clone_ok::<T>(),
    ensures match r {
      Ok(order) => topo_ok(graph@, order@) && forall|x: T| !#[trigger] reaches(graph@, x, x),
      Err(e) => reaches(graph@, e.0, e.0),
    },
  at start
    let ghost g0 = graph@;
  at call run 0 before
    let ghost init = unstart(work.actions@);
    let ghost vis0 = visitor;
    proof {
      broadcast use {vstd::seq_lib::group_seq_properties, vstd::set::group_set_lemmas};
      assert forall|r: Seq<T>| work.actions@ == #[trigger] starts(r) implies init == r by { lemma_unstart(work.actions@, r); }
      assert(starts(init) =~= work.actions@);
      assert forall|x: T| #[trigger] init.contains(x) <==> g0.contains_key(x) by { assert(init.to_set().contains(x) <==> init.contains(x)); }
      lemma_nodes(g0);
      assert forall|i: int| 0 <= i < init.len() implies visitor.universe().contains(#[trigger] init[i]) by { assert(init.contains(init[i])); }
    }
  at call run 0 after
    proof {
      let (h, vs) = choose|h: Seq<Ev<T, ()>>, vs: Seq<Visitor<'_, T>>| #[trigger] run_ok(h, vs, init) && vs[0] == vis0 && vs.last() == visitor
        && got.done.elems() == exited(h) && got.cycle == first_cyc(h);
      lemma_vs_order(g0, h, vs);
      lemma_graph_run(g0, h, init);
      assert(visitor.order@ =~= exits(h));
      if first_cyc(h) is None { lemma_acyclic(g0, exits(h)); }
    }
fn Visitor@Visitor::process
  at start
    let ghost w0 = work.actions@;
    let ghost g0 = self.graph@;
    proof { lemma_nodes(g0); assert(starts(Seq::<T>::empty()) =~= Seq::<Action<T>>::empty()); }
  at end
    proof {
      let ks = unstart(work.actions@.skip(w0.len() as int));
      assert forall|r: Seq<T>| work.actions@ == w0 + #[trigger] starts(r) implies ks == r by { lemma_unstart(w0, r); }
      assert(work.actions@ =~= w0 + starts(ks));
      assert(Self::process_rel(old(self), value, (), self, ks)) by {
        broadcast use {vstd::seq_lib::group_seq_properties, vstd::set::group_set_lemmas};
        if g0.contains_key(value) {
          assert forall|x: T| #[trigger] ks.contains(x) <==> edge(g0, value, x) by { assert(ks.to_set().contains(x) <==> ks.contains(x)); }
        }
      }
      assert forall|i: int| 0 <= i < ks.len() implies self.universe().contains(#[trigger] ks[i]) by { assert(ks.contains(ks[i])); assert(edge(g0, value, ks[i])); }
    }
fn CycleError::witness
  ret r
  spec
    ensures r == self.0,
//@end
}
}
fn main() {}
