#![allow(unused_imports, dead_code, unused_macros)]
use vstd::prelude::*;
use vstd::std_specs::iter::IteratorSpec;
use std::collections::HashSet;
use std::fmt::{self, Debug};
use std::hash::{BuildHasher, BuildHasherDefault, Hash};
use vstd::std_specs::hash::{obeys_key_model, builds_valid_hashers};
//@include std.inc
use xstd::*;
verus! {
//@canary
broadcast use vstd::std_specs::hash::group_hash_axioms;

pub mod fast_hash { use super::*;
  #[verifier::external_body]
  pub struct FxBuildHasher { x: u8 }
  #[verifier::external]
  impl BuildHasher for FxBuildHasher { type Hasher = std::hash::DefaultHasher; fn build_hasher(&self) -> Self::Hasher { unimplemented!() } }
  #[verifier::external]
  impl Default for FxBuildHasher { fn default() -> Self { unimplemented!() } }
  #[verifier::external]
  impl Clone for FxBuildHasher { fn clone(&self) -> Self { unimplemented!() } }
  pub type FxHashSet<K> = HashSet<K, FxBuildHasher>;
}
use fast_hash::*;

/// what the constructors and types of a language mean
pub trait Sem: Sized {
  type C; type T; type I;
  /// what `any()` is
  spec fn any_c() -> Self::C;
  /// what `covers` says
  spec fn cov(l: Self::C, r: Self::C) -> bool;
  /// the values of type `ty` are made with the constructors `vc`
  spec fn vcon(ty: Self::T, vc: Self::C) -> bool;
  /// a pattern made with `c` matches values made with `vc`
  spec fn has(c: Self::C, vc: Self::C) -> bool;
  /// what `get_arg_tys` says
  spec fn tys(ty: Self::T, c: Self::C) -> Seq<Self::T>;
  /// patterns of type `ty` may be made with `c`
  spec fn con_ok(ty: Self::T, c: Self::C) -> bool;
  /// `split` never returns a constructor for the rest
  spec fn real_split() -> bool;
  /// the language has no errors, other than to patterns that make no sense
  spec fn total() -> bool;
  /// the language may be asked about any constructor and any type, has an error for those that do not go together,
  /// and no type without values
  spec fn strict() -> bool;
  proof fn law()
    ensures
      Self::cov(Self::any_c(), Self::any_c()),
      forall|c: Self::C, vc: Self::C| Self::cov(c, Self::any_c()) ==> #[trigger] Self::has(c, vc),
      forall|ty: Self::T| #[trigger] Self::con_ok(ty, Self::any_c()),
      Self::strict() ==> forall|ty: Self::T, c: Self::C| #[trigger] Self::con_ok(ty, c);
}
// ---------------------------------------------------------------- values and patterns
/// a value: a constructor with its arguments
#[verifier::accept_recursive_types(S)]
pub struct V<S: Sem> { pub con: S::C, pub args: Seq<V<S>> }
/// a pattern as such
#[verifier::accept_recursive_types(S)]
pub enum P<S: Sem> { Con(S::C, Seq<P<S>>, Option<S::I>), Or(Seq<P<S>>, Option<S::I>) }

pub open spec fn is_any<S: Sem>(c: S::C) -> bool { S::cov(c, S::any_c()) }
pub open spec fn has_ty<S: Sem>(v: V<S>, ty: S::T) -> bool decreases v {
  S::vcon(ty, v.con) && v.args.len() == S::tys(ty, v.con).len()
    && forall|i: int| 0 <= i < v.args.len() ==> has_ty(#[trigger] v.args[i], S::tys(ty, v.con)[i])
}
/// `p` matches `v`
pub open spec fn hit<S: Sem>(p: P<S>, v: V<S>) -> bool decreases p {
  match p {
    P::Con(c, args, _) => is_any::<S>(c) || S::has(c, v.con) && args.len() <= v.args.len()
      && forall|i: int| 0 <= i < args.len() ==> hit(#[trigger] args[i], v.args[i]),
    P::Or(ps, _) => exists|i: int| 0 <= i < ps.len() && hit(#[trigger] ps[i], v),
  }
}
/// `p` is a pattern of type `ty`
pub open spec fn wt<S: Sem>(p: P<S>, ty: S::T) -> bool decreases p {
  match p {
    P::Con(c, args, _) => S::con_ok(ty, c) && (is_any::<S>(c) ==> args.len() == 0)
      && forall|vc: S::C| #[trigger] S::vcon(ty, vc) && S::has(c, vc) ==> args.len() <= S::tys(ty, vc).len()
        && forall|i: int| 0 <= i < args.len() ==> wt(#[trigger] args[i], S::tys(ty, vc)[i]),
    P::Or(ps, _) => forall|i: int| 0 <= i < ps.len() ==> wt(#[trigger] ps[i], ty),
  }
}
pub open spec fn no_or<S: Sem>(p: P<S>) -> bool decreases p {
  match p {
    P::Con(_, args, _) => forall|i: int| 0 <= i < args.len() ==> no_or(#[trigger] args[i]),
    P::Or(_, _) => false,
  }
}
/// the identifier `i` occurs in `p`
pub open spec fn occ<S: Sem>(p: P<S>, x: S::I) -> bool decreases p {
  match p {
    P::Con(_, args, id) => id == Some(x) || exists|i: int| 0 <= i < args.len() && occ(#[trigger] args[i], x),
    P::Or(ps, id) => id == Some(x) || exists|i: int| 0 <= i < ps.len() && occ(#[trigger] ps[i], x),
  }
}
pub open spec fn idx<S: Sem>(p: P<S>) -> Option<S::I> { match p { P::Con(_, _, id) => id, P::Or(_, id) => id } }
pub open spec fn subs<S: Sem>(p: P<S>) -> Seq<P<S>> { match p { P::Con(_, s, _) => s, P::Or(s, _) => s } }

// ---------------------------------------------------------------- rows of patterns, columns of values
pub open spec fn occs<S: Sem>(r: Seq<P<S>>, x: S::I) -> bool { exists|i: int| 0 <= i < r.len() && occ(#[trigger] r[i], x) }
pub open spec fn typed<S: Sem>(vs: Seq<V<S>>, t: Seq<S::T>) -> bool {
  vs.len() == t.len() && forall|i: int| 0 <= i < vs.len() ==> has_ty(#[trigger] vs[i], t[i])
}
pub open spec fn hits<S: Sem>(r: Seq<P<S>>, vs: Seq<V<S>>) -> bool {
  r.len() == vs.len() && forall|i: int| 0 <= i < r.len() ==> hit(#[trigger] r[i], vs[i])
}
pub open spec fn wts<S: Sem>(r: Seq<P<S>>, t: Seq<S::T>) -> bool {
  r.len() == t.len() && forall|i: int| 0 <= i < r.len() ==> wt(#[trigger] r[i], t[i])
}
pub open spec fn no_ors<S: Sem>(r: Seq<P<S>>) -> bool { forall|i: int| 0 <= i < r.len() ==> no_or(#[trigger] r[i]) }
/// some row matches
pub open spec fn cvr<S: Sem>(m: Seq<Seq<P<S>>>, vs: Seq<V<S>>) -> bool { exists|k: int| 0 <= k < m.len() && hits(#[trigger] m[k], vs) }
pub open spec fn wtm<S: Sem>(m: Seq<Seq<P<S>>>, t: Seq<S::T>) -> bool { forall|k: int| 0 <= k < m.len() ==> wts(#[trigger] m[k], t) }
/// `vs` is matched by `r` and by no row before
pub open spec fn fresh<S: Sem>(m: Seq<Seq<P<S>>>, r: Seq<P<S>>, t: Seq<S::T>, vs: Seq<V<S>>) -> bool {
  typed(vs, t) && hits(r, vs) && !cvr(m, vs)
}

// ---------------------------------------------------------------- what a split must be
/// the value constructors that `c` stands for in a split: those it includes, or if it stands for the rest, those
/// in none of `cs`
pub open spec fn part<S: Sem>(ty: S::T, cs: Seq<S::C>, c: S::C, vc: S::C) -> bool {
  S::vcon(ty, vc) && if is_any::<S>(c) { forall|k: int| 0 <= k < cs.len() && !is_any::<S>(#[trigger] cs[k]) ==> !S::has(cs[k], vc) } else { S::has(c, vc) }
}
/// `x` includes all of the part that `c` stands for or none of it, as `covers` says
pub open spec fn clear<S: Sem>(ty: S::T, cs: Seq<S::C>, c: S::C, x: S::C) -> bool {
  forall|vc: S::C| #[trigger] part::<S>(ty, cs, c, vc) ==> (S::has(x, vc) <==> S::cov(x, c))
}
pub open spec fn good_part<S: Sem>(ty: S::T, p: S::C, cs: Seq<S::C>, c: S::C) -> bool {
  S::con_ok(ty, c)
    && (is_any::<S>(p) || S::cov(p, c) && clear::<S>(ty, cs, c, p))
    && (forall|k: int| 0 <= k < cs.len() && !is_any::<S>(cs[k]) ==> clear::<S>(ty, cs, c, #[trigger] cs[k]))
    && if is_any::<S>(c) {
      is_any::<S>(p) && S::tys(ty, c).len() == 0
        && (forall|k: int| 0 <= k < cs.len() && !is_any::<S>(cs[k]) ==> !S::cov(#[trigger] cs[k], c))
        && exists|v: V<S>| #[trigger] has_ty(v, ty) && part::<S>(ty, cs, c, v.con)
    } else {
      (exists|vc: S::C| #[trigger] part::<S>(ty, cs, c, vc)) && forall|vc: S::C| #[trigger] part::<S>(ty, cs, c, vc) ==> S::tys(ty, vc) == S::tys(ty, c)
    }
}
pub open spec fn good_split<S: Sem>(ty: S::T, p: S::C, cs: Seq<S::C>, rs: Seq<S::C>) -> bool {
  (forall|j: int| 0 <= j < rs.len() ==> good_part::<S>(ty, p, cs, #[trigger] rs[j]))
    && (forall|vc: S::C| #[trigger] S::vcon(ty, vc) && S::has(p, vc) ==> exists|j: int| 0 <= j < rs.len() && part::<S>(ty, cs, #[trigger] rs[j], vc))
}
pub open spec fn con_view<S: Sem>(s: Seq<&S::C>) -> Seq<S::C> { Seq::new(s.len(), |i: int| *s[i]) }

pub mod types { use super::*;
//@splice crates/pattern-match/src/types.rs
keep-vis
inject trait Lang
  /// what the constructors and types mean
  type S: Sem<C = Self::Con, T = Self::Ty, I = Self::PatIdx>;
  proof fn std_law()
    ensures
      obeys_key_model::<Self::PatIdx>(),
      builds_valid_hashers::<FxBuildHasher>(),
      forall|a: Self::Con, b: Self::Con| #[trigger] call_ensures(Self::Con::clone, (&a,), b) ==> a == b,
      forall|a: Self::Con, b: Self::Con| #[trigger] vstd::pervasive::cloned(a, b) ==> a == b,
      forall|a: Self::Ty, b: Self::Ty| #[trigger] call_ensures(Self::Ty::clone, (&a,), b) ==> a == b,
      forall|a: Self::Ty, b: Self::Ty| #[trigger] vstd::pervasive::cloned(a, b) ==> a == b;
fn trait Lang::any
  ret r
  spec
    ensures r == Self::S::any_c(),
fn trait Lang::split
  ret r
  spec
    requires cons.obeys_prophetic_iter_laws(), cons.decrease() is Some,
    ensures r is Ok && Self::S::con_ok(*ty, *con) && (forall|k: int| 0 <= k < cons.remaining().len() ==> Self::S::con_ok(*ty, *(#[trigger] cons.remaining()[k])))
      ==> good_split::<Self::S>(*ty, *con, con_view::<Self::S>(cons.remaining()), (r->Ok_0)@)
        && (Self::S::strict() ==> (r->Ok_0)@.len() > 0)
        && (Self::S::real_split() ==> forall|j: int| 0 <= j < (r->Ok_0)@.len() ==> !is_any::<Self::S>(#[trigger] (r->Ok_0)@[j])),
      Self::S::total() && Self::S::con_ok(*ty, *con) && (forall|k: int| 0 <= k < cons.remaining().len() ==> Self::S::con_ok(*ty, *(#[trigger] cons.remaining()[k]))) ==> r is Ok,
fn trait Lang::get_arg_tys
  ret r
  spec
    ensures r matches Ok(v) ==> v@ == Self::S::tys(*ty, *con),
      Self::S::total() && Self::S::con_ok(*ty, *con) ==> r is Ok,
fn trait Lang::covers
  ret r
  spec
    ensures r == Self::S::cov(*lhs, *rhs),
fn Clone@Pat::clone
  ret r
  attr #[verifier::external_body]
  spec
    ensures r.view() == self.view(),
fn Clone@RawPat::clone
  ret r
  attr #[verifier::external_body]
  spec
    ensures rv(r, None) == rv(*self, None),
fn Clone@ConPat::clone
  ret r
  attr #[verifier::external_body]
  spec
    ensures r.con == self.con, pvs(r.args@) == pvs(self.args@),
fn Pat::any_no_idx
  ret r
  spec
    ensures r.view() == p_any::<L::S>(),
  at start
    broadcast use lemma_view;
    assert(pvs::<L>(Seq::empty()) =~= Seq::empty());
fn Pat::con
  ret r
  spec
    ensures r.view() == P::<L::S>::Con(con, pvs(args@), Some(idx)),
fn Pat::zero
  ret r
  spec
    ensures r.view() == P::<L::S>::Con(con, Seq::empty(), Some(idx)),
  at start
    assert(pvs::<L>(Seq::empty()) =~= Seq::empty());
    broadcast use lemma_view;
fn Pat::con_
  ret r
  spec
    ensures r.view() == P::<L::S>::Con(con, pvs(args@), idx),
  at start
    broadcast use lemma_view;
fn Pat::or
  ret r
  spec
    ensures r.view() == P::<L::S>::Or(pvs(pats@), Some(idx)),
  at start
    broadcast use lemma_view;
//@end
// the bodies of `clone`, checked against the contracts above (which the recursive calls in them go by)
//@splice crates/pattern-match/src/types.rs
only impl Clone@Pat
inherent Clone@Pat
only impl Clone@RawPat
inherent Clone@RawPat
only impl Clone@ConPat
inherent Clone@ConPat
rewrite `fn clone` => `fn clone_checked`
fn Clone@Pat::clone_checked
  ret r
  spec
    ensures r.view() == self.view(),
  at start
    proof { L::std_law(); }
    broadcast use {lemma_view, lemma_cloned};
fn Clone@RawPat::clone_checked
  ret r
  spec
    ensures rv(r, None) == rv(*self, None),
  at start
    proof { L::std_law(); }
    broadcast use {lemma_view, lemma_cloned};
fn Clone@ConPat::clone_checked
  ret r
  spec
    ensures r.con == self.con, pvs(r.args@) == pvs(self.args@),
  at start
    proof { L::std_law(); }
    broadcast use {lemma_view, lemma_cloned};
//@end
}
use types::*;
impl<L: Lang> Pat<L> {
  pub open spec fn view(self) -> P<L::S> decreases self {
    match self.raw {
      RawPat::Con(c) => P::Con(c.con, Seq::new(c.args@.len(), |i: int| if 0 <= i < c.args@.len() { c.args@[i].view() } else { arbitrary() }), self.idx),
      RawPat::Or(ps) => P::Or(Seq::new(ps@.len(), |i: int| if 0 <= i < ps@.len() { ps@[i].view() } else { arbitrary() }), self.idx),
    }
  }
}
pub open spec fn rv<L: Lang>(raw: RawPat<L>, idx: Option<L::PatIdx>) -> P<L::S> { Pat::<L> { raw, idx }.view() }
pub open spec fn pvs<L: Lang>(s: Seq<Pat<L>>) -> Seq<P<L::S>> { Seq::new(s.len(), |i: int| s[i].view()) }
pub broadcast proof fn lemma_view<L: Lang>(p: Pat<L>)
  ensures #[trigger] p.view() == (match p.raw { RawPat::Con(c) => P::<L::S>::Con(c.con, pvs(c.args@), p.idx), RawPat::Or(ps) => P::<L::S>::Or(pvs(ps@), p.idx) })
{
  match p.raw {
    RawPat::Con(c) => { assert(p.view()->Con_1 =~= pvs(c.args@)); }
    RawPat::Or(ps) => { assert(p.view()->Or_0 =~= pvs(ps@)); }
  }
}
pub broadcast proof fn lemma_cloned<L: Lang>(a: Vec<Pat<L>>, b: Vec<Pat<L>>)
  requires #[trigger] vstd::std_specs::vec::vec_clone_trigger(a, b), a@.len() == b@.len(), forall|i: int| 0 <= i < a@.len() ==> #[trigger] vstd::pervasive::cloned(a@[i], b@[i]),
  ensures pvs(a@) == pvs(b@)
{
  assert forall|i: int| 0 <= i < a@.len() implies a@[i].view() == b@[i].view() by { assert(vstd::pervasive::cloned(a@[i], b@[i])); }
  assert(pvs(a@) =~= pvs(b@));
}
pub open spec fn p_any<S: Sem>() -> P<S> { P::Con(S::any_c(), Seq::empty(), None) }

// ---------------------------------------------------------------- the matrix
pub open spec fn cpv<L: Lang>(c: ConPat<L>) -> P<L::S> { P::Con(c.con, pvs(c.args@), None) }
pub open spec fn cpvs<L: Lang>(s: Seq<ConPat<L>>) -> Seq<P<L::S>> { Seq::new(s.len(), |i: int| cpv(s[i])) }
pub open spec fn lens<S: Sem>(m: Seq<Seq<P<S>>>, n: nat) -> bool { forall|k: int| 0 <= k < m.len() ==> (#[trigger] m[k]).len() == n }
pub open spec fn hit_any<S: Sem>(ps: Seq<P<S>>, v: V<S>) -> bool { exists|i: int| 0 <= i < ps.len() && hit(#[trigger] ps[i], v) }
pub open spec fn wt_all<S: Sem>(ps: Seq<P<S>>, ty: S::T) -> bool { forall|i: int| 0 <= i < ps.len() ==> wt(#[trigger] ps[i], ty) }
/// `ps` are together the same pattern as `p`
pub open spec fn expands<S: Sem>(ps: Seq<P<S>>, p: P<S>) -> bool {
  (forall|v: V<S>| hit_any(ps, v) <==> #[trigger] hit(p, v)) && (forall|ty: S::T| #[trigger] wt(p, ty) ==> wt_all(ps, ty))
}
pub open spec fn expands_list<S: Sem>(ps: Seq<P<S>>, qs: Seq<P<S>>) -> bool {
  (forall|v: V<S>| hit_any(ps, v) <==> #[trigger] hit_any(qs, v)) && (forall|ty: S::T| #[trigger] wt_all(qs, ty) ==> wt_all(ps, ty))
}
proof fn lemma_or_unfold<S: Sem>(p: P<S>, v: V<S>)
  requires p is Or,
  ensures hit(p, v) <==> hit_any(p->Or_0, v)
{
}
proof fn lemma_wt_or_unfold<S: Sem>(p: P<S>, ty: S::T)
  requires p is Or,
  ensures wt(p, ty) <==> wt_all(p->Or_0, ty)
{
}
pub broadcast proof fn lemma_or<S: Sem>(ps: Seq<P<S>>, id: Option<S::I>, v: V<S>)
  ensures #[trigger] hit(P::Or(ps, id), v) <==> hit_any(ps, v)
{
  lemma_or_unfold(P::<S>::Or(ps, id), v);
}
pub broadcast proof fn lemma_wt_or<S: Sem>(ps: Seq<P<S>>, id: Option<S::I>, ty: S::T)
  ensures #[trigger] wt(P::Or(ps, id), ty) <==> wt_all(ps, ty)
{
  lemma_wt_or_unfold(P::<S>::Or(ps, id), ty);
}
pub proof fn lemma_hit_push<S: Sem>(ps: Seq<P<S>>, qs: Seq<P<S>>)
  ensures forall|v: V<S>| #[trigger] hit_any(ps + qs, v) <==> hit_any(ps, v) || hit_any(qs, v),
    forall|ty: S::T| #[trigger] wt_all(ps + qs, ty) <==> wt_all(ps, ty) && wt_all(qs, ty),
{
  let s = ps + qs;
  assert forall|v: V<S>| #[trigger] hit_any(s, v) <==> hit_any(ps, v) || hit_any(qs, v) by {
    if hit_any(ps, v) { let i = choose|i: int| 0 <= i < ps.len() && hit(#[trigger] ps[i], v); assert(s[i] == ps[i]); }
    if hit_any(qs, v) { let i = choose|i: int| 0 <= i < qs.len() && hit(#[trigger] qs[i], v); assert(s[ps.len() + i] == qs[i]); }
  }
  assert forall|ty: S::T| #[trigger] wt_all(s, ty) <==> wt_all(ps, ty) && wt_all(qs, ty) by {
    if wt_all(s, ty) {
      assert forall|i: int| 0 <= i < ps.len() implies wt(#[trigger] ps[i], ty) by { assert(s[i] == ps[i]); }
      assert forall|i: int| 0 <= i < qs.len() implies wt(#[trigger] qs[i], ty) by { assert(s[ps.len() + i] == qs[i]); }
    }
  }
}
/// one more of the alternatives
pub proof fn lemma_expand_step<S: Sem>(ps: Seq<P<S>>, qs: Seq<P<S>>, new: Seq<P<S>>, p: P<S>)
  requires expands_list(ps, qs), expands(new, p),
  ensures expands_list(ps + new, qs.push(p)),
{
  lemma_hit_push(ps, new); lemma_hit_push(qs, seq![p]);
  assert(qs.push(p) =~= qs + seq![p]);
  assert(seq![p][0] == p);
  assert forall|v: V<S>| hit_any(ps + new, v) <==> #[trigger] hit_any(qs.push(p), v) by { assert(hit_any(seq![p], v) <==> hit(p, v)); }
  assert forall|ty: S::T| #[trigger] wt_all(qs.push(p), ty) implies wt_all(ps + new, ty) by { assert(wt(seq![p][0], ty)); }
}
/// a row for each of `cs`
pub open spec fn rows_of<S: Sem>(r: Seq<P<S>>, cs: Seq<P<S>>) -> Seq<Seq<P<S>>> { Seq::new(cs.len(), |i: int| r.push(cs[i])) }
/// `m` with the row `r`
pub open spec fn pushed<S: Sem>(m: Seq<Seq<P<S>>>, r: Seq<P<S>>, n: Seq<Seq<P<S>>>) -> bool {
  (forall|vs: Seq<V<S>>| #[trigger] cvr(n, vs) <==> cvr(m, vs) || hits(r, vs))
    && (forall|t: Seq<S::T>| wtm(m, t) && wts(r, t) ==> #[trigger] wtm(n, t))
    && (r.len() == 0 ==> n.len() == m.len() + 1)
}
pub proof fn lemma_cvr_add<S: Sem>(a: Seq<Seq<P<S>>>, b: Seq<Seq<P<S>>>)
  ensures forall|vs: Seq<V<S>>| #[trigger] cvr(a + b, vs) <==> cvr(a, vs) || cvr(b, vs),
    forall|t: Seq<S::T>| #[trigger] wtm(a + b, t) <==> wtm(a, t) && wtm(b, t),
{
  let s = a + b;
  assert forall|vs: Seq<V<S>>| #[trigger] cvr(s, vs) <==> cvr(a, vs) || cvr(b, vs) by {
    if cvr(a, vs) { let i = choose|i: int| 0 <= i < a.len() && hits(#[trigger] a[i], vs); assert(s[i] == a[i]); }
    if cvr(b, vs) { let i = choose|i: int| 0 <= i < b.len() && hits(#[trigger] b[i], vs); assert(s[a.len() + i] == b[i]); }
  }
  assert forall|t: Seq<S::T>| #[trigger] wtm(s, t) <==> wtm(a, t) && wtm(b, t) by {
    if wtm(s, t) {
      assert forall|i: int| 0 <= i < a.len() implies wts(#[trigger] a[i], t) by { assert(s[i] == a[i]); }
      assert forall|i: int| 0 <= i < b.len() implies wts(#[trigger] b[i], t) by { assert(s[a.len() + i] == b[i]); }
    }
  }
}
pub proof fn lemma_hits_push<S: Sem>(r: Seq<P<S>>, p: P<S>)
  ensures
    forall|vs: Seq<V<S>>| #[trigger] hits(r.push(p), vs) <==> vs.len() > 0 && hits(r, vs.drop_last()) && hit(p, vs.last()),
    forall|t: Seq<S::T>| #[trigger] wts(r.push(p), t) <==> t.len() > 0 && wts(r, t.drop_last()) && wt(p, t.last()),
{
  let q = r.push(p);
  assert forall|vs: Seq<V<S>>| #[trigger] hits(q, vs) <==> vs.len() > 0 && hits(r, vs.drop_last()) && hit(p, vs.last()) by {
    if hits(q, vs) {
      assert(hit(q[r.len() as int], vs[r.len() as int]));
      assert forall|i: int| 0 <= i < r.len() implies hit(#[trigger] r[i], vs.drop_last()[i]) by { assert(hit(q[i], vs[i])); }
    }
    if vs.len() > 0 && hits(r, vs.drop_last()) && hit(p, vs.last()) {
      assert forall|i: int| 0 <= i < q.len() implies hit(#[trigger] q[i], vs[i]) by { if i < r.len() { assert(hit(r[i], vs.drop_last()[i])); } }
    }
  }
  assert forall|t: Seq<S::T>| #[trigger] wts(q, t) <==> t.len() > 0 && wts(r, t.drop_last()) && wt(p, t.last()) by {
    if wts(q, t) {
      assert(wt(q[r.len() as int], t[r.len() as int]));
      assert forall|i: int| 0 <= i < r.len() implies wt(#[trigger] r[i], t.drop_last()[i]) by { assert(wt(q[i], t[i])); }
    }
    if t.len() > 0 && wts(r, t.drop_last()) && wt(p, t.last()) {
      assert forall|i: int| 0 <= i < q.len() implies wt(#[trigger] q[i], t[i]) by { if i < r.len() { assert(wt(r[i], t.drop_last()[i])); } }
    }
  }
}
pub proof fn lemma_push<S: Sem>(m: Seq<Seq<P<S>>>, r: Seq<P<S>>, p: P<S>, cs: Seq<P<S>>)
  requires expands(cs, p),
  ensures pushed(m, r.push(p), m + rows_of(r, cs)),
{
  let b = rows_of(r, cs);
  lemma_cvr_add(m, b); lemma_hits_push(r, p);
  assert forall|vs: Seq<V<S>>| #[trigger] cvr(m + b, vs) <==> cvr(m, vs) || hits(r.push(p), vs) by {
    if cvr(b, vs) {
      let i = choose|i: int| 0 <= i < b.len() && hits(#[trigger] b[i], vs);
      lemma_hits_push(r, cs[i]);
      assert(hit_any(cs, vs.last())); assert(hit(p, vs.last()));
    }
    if hits(r.push(p), vs) {
      assert(hit_any(cs, vs.last()));
      let i = choose|i: int| 0 <= i < cs.len() && hit(#[trigger] cs[i], vs.last());
      lemma_hits_push(r, cs[i]);
      assert(hits(b[i], vs));
    }
  }
  assert forall|t: Seq<S::T>| wtm(m, t) && wts(r.push(p), t) implies #[trigger] wtm(m + b, t) by {
    assert(wt(p, t.last()) && wt_all(cs, t.last()));
    assert forall|i: int| 0 <= i < b.len() implies wts(#[trigger] b[i], t) by { lemma_hits_push(r, cs[i]); assert(wt(cs[i], t.last())); }
  }
}
pub proof fn lemma_push_empty<S: Sem>(m: Seq<Seq<P<S>>>)
  ensures pushed(m, Seq::empty(), m.push(Seq::empty())),
{
  let b = seq![Seq::<P<S>>::empty()];
  lemma_cvr_add(m, b);
  assert(m.push(Seq::empty()) =~= m + b);
  assert(b[0] == Seq::<P<S>>::empty());
  assert forall|vs: Seq<V<S>>| #[trigger] cvr(m + b, vs) <==> cvr(m, vs) || hits(Seq::<P<S>>::empty(), vs) by {
    if hits(Seq::<P<S>>::empty(), vs) { assert(hits(b[0], vs)); }
  }
}
pub trait FirstShim<T> {
  spec fn fv(&self) -> Seq<T>;
  /// `<[T]>::first`
  fn x_first(&self) -> (r: Option<&T>) ensures r == (if self.fv().len() == 0 { None::<&T> } else { Some(&self.fv()[0]) });
}
impl<T> FirstShim<T> for Vec<T> {
  open spec fn fv(&self) -> Seq<T> { self@ }
  #[verifier::external_body]
  fn x_first(&self) -> (r: Option<&T>) { self.first() }
}
pub trait OptMap<T>: Sized {
  spec fn ov(&self) -> Option<T>;
  /// `Option::map`
  fn x_map<U, F: FnOnce(T) -> U>(self, f: F) -> (r: Option<U>)
    requires self.ov() is Some ==> call_requires(f, (self.ov()->0,)),
    ensures r is Some <==> self.ov() is Some, r is Some ==> call_ensures(f, (self.ov()->0,), r->0);
}
impl<T> OptMap<T> for Option<T> {
  open spec fn ov(&self) -> Option<T> { *self }
  #[verifier::external_body]
  fn x_map<U, F: FnOnce(T) -> U>(self, f: F) -> (r: Option<U>) { self.map(f) }
}
pub trait MapShim: Iterator + Sized {
  /// `Iterator::map`
  #[verifier::external_body]
  fn x_map<B, F: FnMut(Self::Item) -> B>(self, f: F) -> (r: XIter<B>)
    requires self.obeys_prophetic_iter_laws(), self.decrease() is Some,
      forall|k: int| 0 <= k < self.remaining().len() ==> call_requires(f, (#[trigger] self.remaining()[k],)),
    ensures r.rest().len() == self.remaining().len(),
      forall|k: int| 0 <= k < r.rest().len() ==> call_ensures(f, (self.remaining()[k],), #[trigger] r.rest()[k]),
  { unimplemented!() }
}
impl<I: Iterator> MapShim for I {}

pub mod matrix { use super::*; use super::types::*;
impl<L: Lang> Matrix<L> {
  pub open spec fn view(self) -> Seq<Seq<P<L::S>>> { Seq::new(self.rows@.len(), |i: int| self.rows@[i].view()) }
}
impl<L: Lang> Row<L> {
  pub open spec fn view(self) -> Seq<P<L::S>> { match self { Row::Empty => Seq::empty(), Row::NonEmpty(r) => r.view() } }
}
impl<L: Lang> NonEmptyRow<L> {
  pub open spec fn view(self) -> Seq<P<L::S>> { pvs(self.pats@).push(cpv(self.con_pat)) }
}
//@splice crates/pattern-match/src/matrix.rs
rewrite `pub(crate)` => `pub`
rewrite `self.rows.first` => `self.rows.x_first`
rewrite `.map` => `.x_map`
fn expand_or
  attr #[verifier::loop_isolation(false)]
  spec
    ensures final(ac)@.len() >= old(ac)@.len(), final(ac)@.take(old(ac)@.len() as int) == old(ac)@,
      expands(cpvs(final(ac)@.skip(old(ac)@.len() as int)), pat.view()),
    decreases pat
  at start
    broadcast use lemma_view;
    let ghost (p0, a0) = (pat, ac@);
  loop 0 it
    invariant ac@.len() >= a0.len(), ac@.take(a0.len() as int) == a0, p0.raw is Or, it.seq() == p0.raw->Or_0@,
      it.iter.obeys_prophetic_iter_laws(), it.iter.decrease() is Some,
      expands_list(cpvs(ac@.skip(a0.len() as int)), pvs(p0.raw->Or_0@.take(it.index@))),
  at loop 0 before
    proof {
      assert(ac@.skip(a0.len() as int) =~= Seq::empty()); assert(pats@.take(0) =~= Seq::empty());
      assert(cpvs(ac@.skip(a0.len() as int)) =~= pvs(pats@.take(0)));
    }
  at loop 0 start
    let ghost (a1, pt) = (ac@, pat);
    proof { assert(pat == p0.raw->Or_0@[it.index@]); }
  at loop 0 end
    proof {
      let q = p0.raw->Or_0@;
      lemma_expand_step(cpvs(a1.skip(a0.len() as int)), pvs(q.take(it.index@)), cpvs(ac@.skip(a1.len() as int)), pt.view());
      assert(ac@.take(a0.len() as int) =~= a1.take(a0.len() as int)) by { assert(ac@.take(a1.len() as int).take(a0.len() as int) =~= ac@.take(a0.len() as int)); }
      assert(cpvs(ac@.skip(a0.len() as int)) =~= cpvs(a1.skip(a0.len() as int)) + cpvs(ac@.skip(a1.len() as int))) by {
        assert forall|i: int| 0 <= i < a1.len() implies #[trigger] ac@[i] == a1[i] by { assert(ac@.take(a1.len() as int)[i] == ac@[i]); }
      }
      assert(pvs(q.take(it.index@ + 1)) =~= pvs(q.take(it.index@)).push(pt.view()));
    }
  at end
    proof {
      let n = cpvs(ac@.skip(a0.len() as int));
      match p0.raw {
        RawPat::Con(p) => {
          assert(ac@.take(a0.len() as int) =~= a0);
          assert(n =~= seq![cpv(p)]); assert(n[0] == cpv(p));
          assert forall|v: V<L::S>| hit_any(n, v) <==> #[trigger] hit(p0.view(), v) by { assert(hit(n[0], v) == hit(p0.view(), v)); }
          assert forall|ty: L::Ty| #[trigger] wt(p0.view(), ty) implies wt_all(n, ty) by { assert(wt(n[0], ty)); }
        }
        RawPat::Or(ps) => {
          assert(ps@.take(ps@.len() as int) =~= ps@);
          assert forall|v: V<L::S>| hit_any(n, v) <==> #[trigger] hit(p0.view(), v) by { lemma_or(pvs(ps@), p0.idx, v); }
          assert forall|ty: L::Ty| #[trigger] wt(p0.view(), ty) implies wt_all(n, ty) by { lemma_wt_or(pvs(ps@), p0.idx, ty); }
        }
      }
    }
fn Row::len
  ret r
  spec
    requires self.view().len() <= usize::MAX,
    ensures r == self.view().len(),
  at start
    broadcast use lemma_view;
fn Matrix::num_rows
  ret r
  spec
    ensures r == self.view().len(),
fn Matrix::num_cols
  ret r
  spec
    requires self.view().len() > 0 ==> self.view()[0].len() <= usize::MAX,
    ensures r == (if self.view().len() == 0 { None::<usize> } else { Some(self.view()[0].len() as usize) }),
  at start
    assert(self.rows@.len() > 0 ==> self.view()[0] == self.rows@[0].view());
fn Matrix::non_empty_rows
  ret r
  spec
    requires forall|k: int| 0 <= k < self.view().len() ==> (#[trigger] self.view()[k]).len() > 0,
    ensures r.obeys_prophetic_iter_laws(), r.decrease() is Some, r.remaining().len() == self.view().len(),
      forall|k: int| 0 <= k < self.view().len() ==> (#[trigger] r.remaining()[k]).view() == self.view()[k],
  closure 0 |$0: &Row<L>| -> (o: &NonEmptyRow<L>)
    requires $0.view().len() > 0,
    ensures o.view() == $0.view(),
  at start
    proof {
      assert forall|k: int| 0 <= k < self.rows@.len() implies (#[trigger] self.rows@.as_ref()[k]).view().len() > 0 by { assert(self.view()[k].len() > 0); }
    }
fn Default@Matrix::default
  ret r
  spec
    ensures r.view() == Seq::<Seq<P<L::S>>>::empty(),
fn Clone@Matrix::clone
  ret r
  spec
    ensures r.view() == self.view(),
fn Clone@Row::clone
  ret r
  spec
    ensures r.view() == self.view(),
fn Clone@NonEmptyRow::clone
  ret r
  spec
    ensures r.view() == self.view(),
fn Matrix::push
  spec
    requires lens(old(self).view(), row@.len()),
    ensures lens(final(self).view(), row@.len()), pushed(old(self).view(), pvs(row@), final(self).view()),
  at start
    broadcast use {lemma_view, lemma_cloned};
    let ghost (m0, r0) = (self.view(), row@);
    proof { assert(row.len() == row@.len()); if m0.len() > 0 { assert(m0[0].len() == row@.len()); } }
  loop 0 it
    invariant row@ == r0.drop_last(), r0.len() > 0, lens(self.view(), r0.len()),
      it.iter.obeys_prophetic_iter_laws(), it.iter.decrease() is Some,
      self.view() == m0 + rows_of(pvs(row@), cpvs(it.seq().take(it.index@))),
  at loop 0 before
    let ghost cs = con_pats@;
    proof {
      assert(cs.skip(0) =~= cs);
      assert(self.view() =~= m0 + rows_of(pvs(row@), cpvs(cs.take(0))));
      assert(expands(cpvs(cs), r0.last().view())) by { assert(cs.skip(0) =~= cs); }
    }
  at loop 0 start
    let ghost (m1, c) = (self.view(), con_pat);
  at loop 0 end
    proof {
      assert(self.rows@.last()->NonEmpty_0.con_pat == c);
      assert(pvs(self.rows@.last()->NonEmpty_0.pats@) == pvs(row@));
      assert(self.view().last() == pvs(row@).push(cpv(c)));
      assert(self.view().drop_last() =~= m1);
      assert(self.view() =~= m1.push(pvs(row@).push(cpv(c))));
      assert(self.view() =~= m0 + rows_of(pvs(row@), cpvs(it.seq().take(it.index@ + 1))));
      assert(pvs(r0).len() == r0.len());
    }
  at loop 0 after
    proof {
      assert(cs.take(cs.len() as int) =~= cs);
      assert(pvs(r0) =~= pvs(r0.drop_last()).push(r0.last().view()));
      lemma_push(m0, pvs(row@), r0.last().view(), cpvs(cs));
      assert(self.view() == m0 + rows_of(pvs(row@), cpvs(cs)));
    }
  at end
    proof {
      if r0.len() == 0 {
        lemma_push_empty(m0);
        assert(self.view() =~= m0.push(Seq::empty()));
        assert(pvs(r0) =~= Seq::empty());
      } else {
        assert(pvs(r0) =~= pvs(r0.drop_last()).push(r0.last().view()));
      }
    }
//@end
}
// ---------------------------------------------------------------- specialisation
pub open spec fn spec_args<S: Sem>(args: Seq<P<S>>, n: nat) -> Seq<P<S>> { Seq::new(n, |i: int| if i < args.len() { args[i] } else { p_any() }) }
pub open spec fn top_con<S: Sem>(r: Seq<P<S>>) -> S::C { r.last()->Con_0 }
pub open spec fn top_args<S: Sem>(r: Seq<P<S>>) -> Seq<P<S>> { r.last()->Con_1 }
pub open spec fn sp_some<S: Sem>(r: Seq<P<S>>, c: S::C) -> bool { is_any::<S>(top_con(r)) || S::cov(top_con(r), c) }
pub open spec fn sp_row<S: Sem>(r: Seq<P<S>>, ty: S::T, c: S::C) -> Seq<P<S>> { r.drop_last() + spec_args(top_args(r), S::tys(ty, c).len()).reverse() }
pub open spec fn sp_tys<S: Sem>(t: Seq<S::T>, c: S::C) -> Seq<S::T> { t.drop_last() + S::tys(t.last(), c).reverse() }
/// the column of values with the last one replaced by its arguments
pub open spec fn unpack<S: Sem>(vs: Seq<V<S>>, c: S::C) -> Seq<V<S>> { if is_any::<S>(c) { vs.drop_last() } else { vs.drop_last() + vs.last().args.reverse() } }
/// `vs` is of types `t` and its last value belongs to the part `c`
pub open spec fn in_part<S: Sem>(vs: Seq<V<S>>, t: Seq<S::T>, cs: Seq<S::C>, c: S::C) -> bool {
  typed(vs, t) && t.len() > 0 && part::<S>(t.last(), cs, c, vs.last().con)
}
pub open spec fn is_con<S: Sem>(r: Seq<P<S>>) -> bool { r.len() > 0 && r.last() is Con }

pub proof fn lemma_any<S: Sem>()
  ensures forall|v: V<S>| #[trigger] hit(p_any::<S>(), v), forall|ty: S::T| #[trigger] wt(p_any::<S>(), ty), no_or(p_any::<S>()), forall|x: S::I| !(#[trigger] occ(p_any::<S>(), x)),
{
  S::law();
  assert(is_any::<S>(S::any_c()));
  assert forall|v: V<S>| #[trigger] hit(p_any::<S>(), v) by {}
}
pub proof fn lemma_unpack<S: Sem>(vs: Seq<V<S>>, t: Seq<S::T>, p: S::C, cs: Seq<S::C>, c: S::C)
  requires in_part(vs, t, cs, c), good_part::<S>(t.last(), p, cs, c),
  ensures typed(unpack(vs, c), sp_tys::<S>(t, c)),
{
  let (u, st) = (unpack(vs, c), sp_tys::<S>(t, c));
  let v = vs.last();
  assert(has_ty(vs[vs.len() - 1], t[vs.len() - 1]));
  assert forall|i: int| 0 <= i < u.len() implies has_ty(#[trigger] u[i], st[i]) by {
    if i < vs.len() - 1 { assert(has_ty(vs[i], t[i])); }
    else { let j = v.args.len() - 1 - (i - (vs.len() - 1)); assert(u[i] == v.args[j]); assert(has_ty(v.args[j], S::tys(t.last(), v.con)[j])); }
  }
}
/// a row matches exactly if its specialisation matches the unpacked values
pub proof fn lemma_sp<S: Sem>(r: Seq<P<S>>, vs: Seq<V<S>>, t: Seq<S::T>, p: S::C, cs: Seq<S::C>, c: S::C)
  requires in_part(vs, t, cs, c), good_part::<S>(t.last(), p, cs, c), wts(r, t), is_con(r),
    top_con(r) == p || exists|k: int| 0 <= k < cs.len() && #[trigger] cs[k] == top_con(r),
  ensures hits(r, vs) <==> sp_some(r, c) && hits(sp_row(r, t.last(), c), unpack(vs, c)),
{
  let (ty, v, x, args) = (t.last(), vs.last(), top_con(r), top_args(r));
  let n = S::tys(ty, c).len();
  let (q, u, sa) = (sp_row(r, ty, c), unpack(vs, c), spec_args(top_args(r), S::tys(t.last(), c).len()));
  let m = r.len() - 1;
  S::law(); lemma_any::<S>();
  assert(r.drop_last().push(r.last()) =~= r);
  lemma_hits_push(r.drop_last(), r.last());
  assert(has_ty(vs[m], t[m]));
  assert(wt(r[m], t[m]));
  assert(hits(r, vs) <==> hits(r.drop_last(), vs.drop_last()) && hit(r.last(), v));
  if !is_any::<S>(x) {
    if is_any::<S>(c) { assert(!S::cov(x, c) && !S::has(x, v.con)); }
    else { assert(clear::<S>(ty, cs, c, x)); assert(S::has(x, v.con) <==> S::cov(x, c)); }
  }
  if sp_some(r, c) {
    if is_any::<S>(c) {
      assert(is_any::<S>(x));
      assert(q =~= r.drop_last());
      assert(u == vs.drop_last());
    } else {
      assert(S::tys(ty, v.con) == S::tys(ty, c));
      assert(args.len() <= n) by { if !is_any::<S>(x) { assert(S::vcon(ty, v.con) && S::has(x, v.con)); } }
      assert(q.len() == m + n && u.len() == m + n);
      if hits(r, vs) {
        assert forall|i: int| 0 <= i < q.len() implies hit(#[trigger] q[i], u[i]) by {
          if i < m { assert(hit(r.drop_last()[i], vs.drop_last()[i])); }
          else { let j = n - 1 - (i - m); assert(q[i] == sa[j] && u[i] == v.args[j]); if j < args.len() { assert(hit(args[j], v.args[j])); } }
        }
      }
      if hits(q, u) {
        assert forall|i: int| 0 <= i < m implies hit(#[trigger] r.drop_last()[i], vs.drop_last()[i]) by { assert(hit(q[i], u[i])); }
        assert forall|j: int| 0 <= j < args.len() implies hit(#[trigger] args[j], v.args[j]) by {
          let i = m + n - 1 - j; assert(q[i] == sa[j] && u[i] == v.args[j]); assert(hit(q[i], u[i]));
        }
        assert(hit(r.last(), v));
      }
    }
  }
}
/// what keeps `specialize` from an error
pub open spec fn sensible<S: Sem>(x: S::C, args: Seq<P<S>>, ty: S::T, c: S::C) -> bool {
  (is_any::<S>(x) ==> args.len() == 0) && (!is_any::<S>(x) && S::cov(x, c) ==> args.len() <= S::tys(ty, c).len())
}
pub proof fn lemma_sensible<S: Sem>(r: Seq<P<S>>, t: Seq<S::T>, p: S::C, cs: Seq<S::C>, c: S::C)
  requires t.len() > 0, good_part::<S>(t.last(), p, cs, c), wts(r, t), is_con(r),
    top_con(r) == p || exists|k: int| 0 <= k < cs.len() && #[trigger] cs[k] == top_con(r),
  ensures sensible::<S>(top_con(r), top_args(r), t.last(), c),
{
  let (ty, x, args, m) = (t.last(), top_con(r), top_args(r), r.len() - 1);
  S::law();
  assert(wt(r[m], t[m]));
  if !is_any::<S>(x) && S::cov(x, c) {
    assert(!is_any::<S>(c));
    let vc = choose|vc: S::C| #[trigger] part::<S>(ty, cs, c, vc);
    assert(clear::<S>(ty, cs, c, x));
    assert(S::vcon(ty, vc) && S::has(x, vc));
  }
}
pub proof fn lemma_sp_wt<S: Sem>(r: Seq<P<S>>, t: Seq<S::T>, p: S::C, cs: Seq<S::C>, c: S::C)
  requires t.len() > 0, good_part::<S>(t.last(), p, cs, c), wts(r, t), is_con(r), sp_some(r, c),
    top_con(r) == p || exists|k: int| 0 <= k < cs.len() && #[trigger] cs[k] == top_con(r),
  ensures wts(sp_row(r, t.last(), c), sp_tys::<S>(t, c)),
{
  let (ty, x, args) = (t.last(), top_con(r), top_args(r));
  let n = S::tys(ty, c).len();
  let (q, st, sa) = (sp_row(r, ty, c), sp_tys::<S>(t, c), spec_args(top_args(r), S::tys(t.last(), c).len()));
  let m = r.len() - 1;
  S::law(); lemma_any::<S>();
  assert(wt(r[m], t[m]));
  assert forall|i: int| 0 <= i < q.len() implies wt(#[trigger] q[i], st[i]) by {
    if i < m { assert(wt(r[i], t[i])); }
    else {
      let j = n - 1 - (i - m);
      assert(q[i] == sa[j] && st[i] == S::tys(ty, c)[j]);
      if j < args.len() {
        assert(!is_any::<S>(x));
        assert(!is_any::<S>(c));
        let vc = choose|vc: S::C| #[trigger] part::<S>(ty, cs, c, vc);
        assert(clear::<S>(ty, cs, c, x));
        assert(S::vcon(ty, vc) && S::has(x, vc));
        assert(wt(args[j], S::tys(ty, vc)[j]));
      }
    }
  }
}
/// a witness: a row of patterns that are not or-patterns, which matches values that are fresh
pub open spec fn good_wit<S: Sem>(m: Seq<Seq<P<S>>>, ps: Seq<P<S>>, t: Seq<S::T>, w: Seq<P<S>>) -> bool {
  wts(w, t) && no_ors(w) && (exists|vs: Seq<V<S>>| #[trigger] hits(w, vs) && fresh(m, ps, t, vs))
    && (S::real_split() ==> forall|vs: Seq<V<S>>| typed(vs, t) && #[trigger] hits(w, vs) ==> fresh(m, ps, t, vs))
}
pub open spec fn good_wits<S: Sem>(m: Seq<Seq<P<S>>>, ps: Seq<P<S>>, t: Seq<S::T>, ws: Seq<Seq<P<S>>>) -> bool {
  forall|k: int| 0 <= k < ws.len() ==> good_wit(m, ps, t, #[trigger] ws[k])
}
/// `m2`, `q2` are `m`, `q` specialised
pub open spec fn link<S: Sem>(m: Seq<Seq<P<S>>>, m2: Seq<Seq<P<S>>>, q: Seq<P<S>>, q2: Seq<P<S>>, t: Seq<S::T>, cs: Seq<S::C>, c: S::C) -> bool {
  forall|vs: Seq<V<S>>| #[trigger] in_part(vs, t, cs, c) ==> (cvr(m, vs) <==> cvr(m2, unpack(vs, c))) && (hits(q, vs) <==> hits(q2, unpack(vs, c)))
}
pub open spec fn wit<S: Sem>(w: Seq<P<S>>, n: nat, c: S::C, id: Option<S::I>) -> Seq<P<S>> {
  w.take(w.len() - n).push(P::Con(c, w.skip(w.len() - n).reverse(), id))
}
pub proof fn lemma_wit<S: Sem>(m: Seq<Seq<P<S>>>, m2: Seq<Seq<P<S>>>, q: Seq<P<S>>, q2: Seq<P<S>>, t: Seq<S::T>, p: S::C, cs: Seq<S::C>, c: S::C, w: Seq<P<S>>, id: Option<S::I>)
  requires t.len() > 0, good_part::<S>(t.last(), p, cs, c), link(m, m2, q, q2, t, cs, c), good_wit(m2, q2, sp_tys::<S>(t, c), w), S::real_split() ==> !is_any::<S>(c),
  ensures good_wit(m, q, t, wit(w, S::tys(t.last(), c).len(), c, id)), w.len() >= S::tys(t.last(), c).len(),
{
  let ty = t.last();
  let n = S::tys(ty, c).len();
  let st = sp_tys::<S>(t, c);
  let k = t.len() - 1;
  let (w2, args) = (wit(w, n, c, id), w.skip(w.len() - n).reverse());
  S::law();
  assert(w.len() == k + n);
  let pc = P::<S>::Con(c, args, id);
  lemma_hits_push(w.take(k), pc);
  // typed
  assert forall|i: int| 0 <= i < k implies wt(#[trigger] w.take(k)[i], t.drop_last()[i]) by { assert(wt(w[i], st[i])); }
  assert forall|vc: S::C| #[trigger] S::vcon(ty, vc) && S::has(c, vc) implies args.len() <= S::tys(ty, vc).len()
    && forall|i: int| 0 <= i < args.len() ==> wt(#[trigger] args[i], S::tys(ty, vc)[i]) by {
    if !is_any::<S>(c) {
      assert(part::<S>(ty, cs, c, vc));
      assert forall|i: int| 0 <= i < args.len() implies wt(#[trigger] args[i], S::tys(ty, vc)[i]) by {
        let j = k + (n - 1 - i); assert(args[i] == w[j] && st[j] == S::tys(ty, c)[i]); assert(wt(w[j], st[j]));
      }
    }
  }
  assert(wt(pc, ty));
  assert(wts(w2, t));
  // no or-patterns
  assert forall|i: int| 0 <= i < args.len() implies no_or(#[trigger] args[i]) by { let j = k + (n - 1 - i); assert(args[i] == w[j]); assert(no_or(w[j])); }
  assert(no_or(pc));
  assert forall|i: int| 0 <= i < w2.len() implies no_or(#[trigger] w2[i]) by { if i < k { assert(w2[i] == w[i]); assert(no_or(w[i])); } }
  // values
  let us = choose|us: Seq<V<S>>| #[trigger] hits(w, us) && fresh(m2, q2, st, us);
  let vs = lemma_pack(us, t, p, cs, c);
  lemma_wit_hits(w, t, p, cs, c, id, vs);
  assert(hits(w2, vs) && fresh(m, q, t, vs));
  if S::real_split() {
    assert forall|vs: Seq<V<S>>| typed(vs, t) && #[trigger] hits(w2, vs) implies fresh(m, q, t, vs) by {
      assert(hit(pc, vs.last()));
      assert(has_ty(vs[vs.len() - 1], t[vs.len() - 1]));
      assert(in_part(vs, t, cs, c));
      lemma_unpack(vs, t, p, cs, c);
      lemma_wit_hits(w, t, p, cs, c, id, vs);
      assert(hits(w, unpack(vs, c)));
      assert(fresh(m2, q2, st, unpack(vs, c)));
    }
  }
}
pub proof fn lemma_wit_hits<S: Sem>(w: Seq<P<S>>, t: Seq<S::T>, p: S::C, cs: Seq<S::C>, c: S::C, id: Option<S::I>, vs: Seq<V<S>>)
  requires in_part(vs, t, cs, c), good_part::<S>(t.last(), p, cs, c), w.len() == t.len() - 1 + S::tys(t.last(), c).len(),
  ensures hits(wit(w, S::tys(t.last(), c).len(), c, id), vs) <==> hits(w, unpack(vs, c)),
{
  S::law();
  let ty = t.last();
  let n = S::tys(ty, c).len();
  let k = t.len() - 1;
  let (w2, args, v, u) = (wit(w, n, c, id), w.skip(w.len() - n).reverse(), vs.last(), unpack(vs, c));
  let pc = P::<S>::Con(c, args, id);
  lemma_hits_push(w.take(k), pc);
  lemma_unpack(vs, t, p, cs, c);
  assert(has_ty(vs[k], t[k]));
  assert(S::has(c, v.con));
  if hits(w2, vs) {
    assert(hits(w.take(k), vs.drop_last()) && hit(pc, v));
    assert forall|i: int| 0 <= i < w.len() implies hit(#[trigger] w[i], u[i]) by {
      if i < k { assert(hit(w.take(k)[i], vs.drop_last()[i])); }
      else { let j = n - 1 - (i - k); assert(args[j] == w[i] && u[i] == v.args[j]); assert(hit(args[j], v.args[j])); }
    }
  }
  if hits(w, u) {
    assert forall|i: int| 0 <= i < k implies hit(#[trigger] w.take(k)[i], vs.drop_last()[i]) by { assert(hit(w[i], u[i])); }
    if !is_any::<S>(c) {
      assert forall|j: int| 0 <= j < args.len() implies hit(#[trigger] args[j], v.args[j]) by {
        let i = k + (n - 1 - j); assert(args[j] == w[i] && u[i] == v.args[j]); assert(hit(w[i], u[i]));
      }
    }
    assert(hit(pc, v));
  }
}

// ---------------------------------------------------------------- what `useful` says
pub type Tpv<L> = Vec<(Pat<L>, <L as Lang>::Ty)>;
pub open spec fn vps<L: Lang>(s: Seq<(Pat<L>, L::Ty)>) -> Seq<P<L::S>> { Seq::new(s.len(), |i: int| s[i].0.view()) }
pub open spec fn vts<L: Lang>(s: Seq<(Pat<L>, L::Ty)>) -> Seq<L::Ty> { Seq::new(s.len(), |i: int| s[i].1) }
pub open spec fn wits<L: Lang>(s: Seq<Vec<Pat<L>>>) -> Seq<Seq<P<L::S>>> { Seq::new(s.len(), |i: int| pvs(s[i]@)) }
/// nothing is fresh
pub open spec fn none_fresh<S: Sem>(m: Seq<Seq<P<S>>>, q: Seq<P<S>>, t: Seq<S::T>) -> bool { forall|vs: Seq<V<S>>| !(#[trigger] fresh(m, q, t, vs)) }
/// `p` matches `v` and it is through the part of `p` with the identifier `x` that it does: no alternative before the
/// ones that this part is in matches
pub open spec fn vx<S: Sem>(p: P<S>, x: S::I, v: V<S>) -> bool decreases p {
  hit(p, v) && (idx(p) == Some(x) || match p {
    P::Con(_, args, _) => exists|i: int| 0 <= i < args.len() && vx(#[trigger] args[i], x, v.args[i]),
    P::Or(ps, _) => exists|i: int| 0 <= i < ps.len() && vx(#[trigger] ps[i], x, v) && first_hit(ps, i, v),
  })
}
pub open spec fn first_hit<S: Sem>(ps: Seq<P<S>>, i: int, v: V<S>) -> bool { forall|j: int| 0 <= j < i ==> !hit(#[trigger] ps[j], v) }
pub open spec fn vx_con<S: Sem>(args: Seq<P<S>>, x: S::I, v: V<S>) -> bool { exists|i: int| 0 <= i < args.len() && vx(#[trigger] args[i], x, v.args[i]) }
pub open spec fn vx_or<S: Sem>(ps: Seq<P<S>>, x: S::I, v: V<S>) -> bool { exists|i: int| 0 <= i < ps.len() && vx(#[trigger] ps[i], x, v) && first_hit(ps, i, v) }
/// through a part of `p` other than `p` itself
pub open spec fn vxi<S: Sem>(p: P<S>, x: S::I, v: V<S>) -> bool {
  match p { P::Con(_, args, _) => vx_con(args, x, v), P::Or(ps, _) => vx_or(ps, x, v) }
}
pub proof fn lemma_vx<S: Sem>(p: P<S>, x: S::I, v: V<S>)
  ensures vx(p, x, v) <==> hit(p, v) && (idx(p) == Some(x) || vxi(p, x, v)),
{
  match p {
    P::Con(_, args, _) => {
      if vx_con(args, x, v) { let i = choose|i: int| 0 <= i < args.len() && vx(#[trigger] args[i], x, v.args[i]); assert(vx(args[i], x, v.args[i])); }
      if vx(p, x, v) && idx(p) != Some(x) { let i = choose|i: int| 0 <= i < args.len() && vx(#[trigger] args[i], x, v.args[i]); assert(vx(args[i], x, v.args[i])); }
    }
    P::Or(ps, _) => {
      if vx_or(ps, x, v) { let i = choose|i: int| 0 <= i < ps.len() && vx(#[trigger] ps[i], x, v) && first_hit(ps, i, v); assert(vx(ps[i], x, v)); }
      if vx(p, x, v) && idx(p) != Some(x) { let i = choose|i: int| 0 <= i < ps.len() && vx(#[trigger] ps[i], x, v) && first_hit(ps, i, v); assert(vx(ps[i], x, v)); }
    }
  }
}
pub open spec fn vxs<S: Sem>(r: Seq<P<S>>, x: S::I, vs: Seq<V<S>>) -> bool { exists|i: int| 0 <= i < r.len() && vx(#[trigger] r[i], x, vs[i]) }
/// `vs` is matched by `q` through `x` and by no row before
pub open spec fn fresh_x<S: Sem>(m: Seq<Seq<P<S>>>, q: Seq<P<S>>, t: Seq<S::T>, x: S::I, vs: Seq<V<S>>) -> bool { fresh(m, q, t, vs) && vxs(q, x, vs) }
pub open spec fn none_x<S: Sem>(m: Seq<Seq<P<S>>>, q: Seq<P<S>>, t: Seq<S::T>, x: S::I) -> bool { forall|vs: Seq<V<S>>| !(#[trigger] fresh_x(m, q, t, x, vs)) }
/// the same but not through the identifier of the last pattern of `q`
pub open spec fn fresh_in<S: Sem>(m: Seq<Seq<P<S>>>, q: Seq<P<S>>, t: Seq<S::T>, x: S::I, vs: Seq<V<S>>) -> bool {
  fresh(m, q, t, vs) && (vxs(q.drop_last(), x, vs.drop_last()) || vxi(q.last(), x, vs.last()))
}
pub open spec fn none_in<S: Sem>(m: Seq<Seq<P<S>>>, q: Seq<P<S>>, t: Seq<S::T>, x: S::I) -> bool { forall|vs: Seq<V<S>>| !(#[trigger] fresh_in(m, q, t, x, vs)) }
pub open spec fn alt<S: Sem>(q: Seq<P<S>>, j: int) -> Seq<P<S>> { q.drop_last().push(subs(q.last())[j]) }
/// no alternative of the last pattern of `q` before the `k`th matches
pub open spec fn first_alt<S: Sem>(q: Seq<P<S>>, k: int, vs: Seq<V<S>>) -> bool { forall|j: int| 0 <= j < k ==> !hits(#[trigger] alt(q, j), vs) }
pub open spec fn alt_x<S: Sem>(m: Seq<Seq<P<S>>>, q: Seq<P<S>>, t: Seq<S::T>, j: int, x: S::I, vs: Seq<V<S>>) -> bool {
  fresh_x(m, alt(q, j), t, x, vs) && first_alt(q, j, vs)
}
pub open spec fn none_alts<S: Sem>(m: Seq<Seq<P<S>>>, q: Seq<P<S>>, t: Seq<S::T>, k: int, x: S::I) -> bool {
  forall|j: int, vs: Seq<V<S>>| 0 <= j < k ==> !(#[trigger] alt_x(m, q, t, j, x, vs))
}
/// the identifiers through which something fresh is matched are gone, and only they
pub open spec fn ids<S: Sem>(m: Seq<Seq<P<S>>>, q: Seq<P<S>>, t: Seq<S::T>, a: Set<S::I>, b: Set<S::I>) -> bool {
  forall|x: S::I| #[trigger] b.contains(x) <==> a.contains(x) && none_x(m, q, t, x)
}
pub open spec fn judged<S: Sem>(m: Seq<Seq<P<S>>>, q: Seq<P<S>>, t: Seq<S::T>, a: Set<S::I>, b: Set<S::I>, ws: Seq<Seq<P<S>>>) -> bool {
  good_wits(m, q, t, ws) && (ws.len() == 0 ==> none_fresh(m, q, t)) && ids(m, q, t, a, b)
}

/// `x` occurs in the first `k`
pub open spec fn occ_upto<S: Sem>(ps: Seq<P<S>>, k: int, x: S::I) -> bool { exists|j: int| 0 <= j < k && occ(#[trigger] ps[j], x) }
pub proof fn lemma_occ_upto<S: Sem>(ps: Seq<P<S>>, k: int)
  requires 0 <= k,
  ensures forall|x: S::I| #[trigger] occ_upto(ps, k + 1, x) <==> occ_upto(ps, k, x) || occ(ps[k], x),
{
  assert forall|x: S::I| #[trigger] occ_upto(ps, k + 1, x) <==> occ_upto(ps, k, x) || occ(ps[k], x) by {
    if occ(ps[k], x) { assert(occ(ps[k], x)); }
    if occ_upto(ps, k, x) { let j = choose|j: int| 0 <= j < k && occ(#[trigger] ps[j], x); assert(occ(ps[j], x)); }
    if occ_upto(ps, k + 1, x) { let j = choose|j: int| 0 <= j < k + 1 && occ(#[trigger] ps[j], x); assert(occ(ps[j], x)); }
  }
}
pub broadcast proof fn lemma_occ<S: Sem>(p: P<S>, x: S::I)
  ensures #[trigger] occ(p, x) <==> idx(p) == Some(x) || occ_upto(subs(p), subs(p).len() as int, x),
{
  let s = subs(p);
  if occ_upto(s, s.len() as int, x) { let j = choose|j: int| 0 <= j < s.len() && occ(#[trigger] s[j], x); assert(occ(s[j], x)); }
  if occ(p, x) && idx(p) != Some(x) { let i = choose|i: int| 0 <= i < s.len() && occ(#[trigger] s[i], x); assert(occ(s[i], x)); }
}
// ---------------------------------------------------------------- what `check` says
/// every value of the type is matched by some pattern
pub open spec fn exhaustive<S: Sem>(ps: Seq<P<S>>, ty: S::T) -> bool { forall|v: V<S>| #[trigger] has_ty(v, ty) ==> hit_any(ps, v) }
/// a missing pattern is one of the type, without or-patterns; it matches a value that no pattern matches; and if the
/// language never splits off a rest, it matches only such values
pub open spec fn good_missing<S: Sem>(ps: Seq<P<S>>, ty: S::T, w: P<S>) -> bool {
  wt(w, ty) && no_or(w) && (exists|v: V<S>| #[trigger] has_ty(v, ty) && hit(w, v) && !hit_any(ps, v))
    && (S::real_split() ==> forall|v: V<S>| #[trigger] has_ty(v, ty) && hit(w, v) ==> !hit_any(ps, v))
}
/// the `i`th pattern is the first one to match `v`, and does so through `x`
pub open spec fn first_x<S: Sem>(ps: Seq<P<S>>, ty: S::T, i: int, x: S::I, v: V<S>) -> bool { has_ty(v, ty) && vx(ps[i], x, v) && first_hit(ps, i, v) }
pub open spec fn useless<S: Sem>(ps: Seq<P<S>>, ty: S::T, k: int, x: S::I) -> bool { forall|i: int, v: V<S>| 0 <= i < k ==> !(#[trigger] first_x(ps, ty, i, x, v)) }
/// the matrix says what the first `k` patterns say
pub open spec fn arms<S: Sem>(ps: Seq<P<S>>, k: int, m: Seq<Seq<P<S>>>) -> bool { forall|v: V<S>| #[trigger] cvr(m, seq![v]) <==> !first_hit(ps, k, v) }
pub proof fn lemma_arms_start<S: Sem>(ps: Seq<P<S>>)
  ensures arms(ps, 0, Seq::empty()),
{
}
pub proof fn lemma_arms_step<S: Sem>(ps: Seq<P<S>>, ty: S::T, k: int, m: Seq<Seq<P<S>>>, m2: Seq<Seq<P<S>>>)
  requires 0 <= k < ps.len(), arms(ps, k, m), pushed(m, seq![ps[k]], m2),
  ensures arms(ps, k + 1, m2), forall|x: S::I| #[trigger] useless(ps, ty, k + 1, x) <==> useless(ps, ty, k, x) && none_x(m, seq![ps[k]], seq![ty], x),
{
  let (q, t) = (seq![ps[k]], seq![ty]);
  assert forall|v: V<S>| #[trigger] cvr(m2, seq![v]) <==> !first_hit(ps, k + 1, v) by {
    assert(q[0] == ps[k] && seq![v][0] == v);
    assert(hits(q, seq![v]) <==> hit(ps[k], v));
    assert(cvr(m, seq![v]) <==> !first_hit(ps, k, v));
    if first_hit(ps, k, v) && !hit(ps[k], v) { assert forall|j: int| 0 <= j < k + 1 implies !hit(#[trigger] ps[j], v) by {} }
    if first_hit(ps, k + 1, v) { assert forall|j: int| 0 <= j < k implies !hit(#[trigger] ps[j], v) by {} assert(!hit(ps[k], v)); }
  }
  assert forall|x: S::I| #[trigger] useless(ps, ty, k + 1, x) <==> useless(ps, ty, k, x) && none_x(m, q, t, x) by {
    assert forall|v: V<S>| #[trigger] first_x(ps, ty, k, x, v) <==> fresh_x(m, q, t, x, seq![v]) by {
      let vs = seq![v];
      assert(q[0] == ps[k] && vs[0] == v && t[0] == ty);
      assert(hits(q, vs) <==> hit(ps[k], v));
      assert(typed(vs, t) <==> has_ty(v, ty));
      assert(vxs(q, x, vs) <==> vx(ps[k], x, v));
      assert(cvr(m, vs) <==> !first_hit(ps, k, v));
      lemma_vx(ps[k], x, v);
    }
    if useless(ps, ty, k + 1, x) {
      assert forall|i: int, v: V<S>| 0 <= i < k implies !(#[trigger] first_x(ps, ty, i, x, v)) by {}
      assert forall|vs: Seq<V<S>>| !(#[trigger] fresh_x(m, q, t, x, vs)) by {
        if fresh_x(m, q, t, x, vs) { assert(vs =~= seq![vs[0]]); assert(first_x(ps, ty, k, x, vs[0])); }
      }
    }
    if useless(ps, ty, k, x) && none_x(m, q, t, x) {
      assert forall|i: int, v: V<S>| 0 <= i < k + 1 implies !(#[trigger] first_x(ps, ty, i, x, v)) by { if i == k { assert(!fresh_x(m, q, t, x, seq![v])); } }
    }
  }
}
/// what the last question, whether anything is missing, says
pub proof fn lemma_missing<S: Sem>(ps: Seq<P<S>>, ty: S::T, m: Seq<Seq<P<S>>>, ws: Seq<Seq<P<S>>>)
  requires arms(ps, ps.len() as int, m), good_wits(m, seq![p_any::<S>()], seq![ty], ws), ws.len() == 0 ==> none_fresh(m, seq![p_any::<S>()], seq![ty]),
  ensures ws.len() == 0 <==> exhaustive(ps, ty), forall|k: int| 0 <= k < ws.len() ==> (#[trigger] ws[k]).len() == 1 && good_missing(ps, ty, ws[k][0]),
{
  let (q, t) = (seq![p_any::<S>()], seq![ty]);
  lemma_any::<S>();
  let n = ps.len() as int;
  assert forall|v: V<S>| #[trigger] has_ty(v, ty) implies (fresh(m, q, t, seq![v]) <==> !hit_any(ps, v)) by {
    let vs = seq![v];
    assert(q[0] == p_any::<S>() && vs[0] == v && t[0] == ty);
    assert(typed(vs, t) && hits(q, vs));
    assert(cvr(m, vs) <==> !first_hit(ps, n, v));
    if hit_any(ps, v) { let i = choose|i: int| 0 <= i < ps.len() && hit(#[trigger] ps[i], v); assert(!first_hit(ps, n, v)); }
    if !first_hit(ps, n, v) { let i = choose|i: int| 0 <= i < n && hit(#[trigger] ps[i], v); assert(hit_any(ps, v)); }
  }
  assert forall|k: int| 0 <= k < ws.len() implies (#[trigger] ws[k]).len() == 1 && good_missing(ps, ty, ws[k][0]) by {
    let w = ws[k];
    assert(good_wit(m, q, t, w));
    assert(wt(w[0], t[0])); assert(no_or(w[0]));
    let vs = choose|vs: Seq<V<S>>| #[trigger] hits(w, vs) && fresh(m, q, t, vs);
    let v = vs[0];
    assert(vs =~= seq![v]);
    assert(has_ty(vs[0], t[0])); assert(hit(w[0], vs[0]));
    assert(has_ty(v, ty) && hit(w[0], v) && !hit_any(ps, v));
    if S::real_split() {
      assert forall|v: V<S>| #[trigger] has_ty(v, ty) && hit(w[0], v) implies !hit_any(ps, v) by {
        let vs = seq![v];
        assert(vs[0] == v); assert(typed(vs, t)); assert(hits(w, vs));
        assert(fresh(m, q, t, vs));
      }
    }
  }
  if ws.len() > 0 { assert(good_missing(ps, ty, ws[0][0])); }
  if ws.len() == 0 { assert forall|v: V<S>| #[trigger] has_ty(v, ty) implies hit_any(ps, v) by { assert(!fresh(m, q, t, seq![v])); } }
}
pub open spec fn upto<S: Sem>(q: Seq<P<S>>, k: int, vs: Seq<V<S>>) -> bool { exists|j: int| 0 <= j < k && hits(#[trigger] alt(q, j), vs) }
/// after `k` alternatives of an or-pattern
pub open spec fn or_inv<S: Sem>(m: Seq<Seq<P<S>>>, q: Seq<P<S>>, t: Seq<S::T>, k: int, mk: Seq<Seq<P<S>>>, ws: Seq<Seq<P<S>>>, a: Set<S::I>, b: Set<S::I>) -> bool {
  (forall|vs: Seq<V<S>>| #[trigger] cvr(mk, vs) <==> cvr(m, vs) || upto(q, k, vs))
    && good_wits(m, q, t, ws)
    && (ws.len() == 0 ==> forall|vs: Seq<V<S>>| typed(vs, t) && !cvr(m, vs) ==> !(#[trigger] upto(q, k, vs)))
    && forall|x: S::I| #[trigger] b.contains(x) <==> a.contains(x) && none_alts(m, q, t, k, x)
}
/// everything but the identifier of the last pattern
pub open spec fn almost<S: Sem>(m: Seq<Seq<P<S>>>, q: Seq<P<S>>, t: Seq<S::T>, a: Set<S::I>, b: Set<S::I>, ws: Seq<Seq<P<S>>>) -> bool {
  good_wits(m, q, t, ws) && (ws.len() == 0 ==> none_fresh(m, q, t))
    && forall|x: S::I| #[trigger] b.contains(x) <==> a.contains(x) && none_in(m, q, t, x)
}
pub proof fn lemma_vxs<S: Sem>(r: Seq<P<S>>, p: P<S>, x: S::I, vs: Seq<V<S>>)
  requires vs.len() == r.len() + 1,
  ensures vxs(r.push(p), x, vs) <==> vxs(r, x, vs.drop_last()) || vx(p, x, vs.last()),
{
  let s = r.push(p);
  if vxs(r, x, vs.drop_last()) { let i = choose|i: int| 0 <= i < r.len() && vx(#[trigger] r[i], x, vs.drop_last()[i]); assert(vx(s[i], x, vs[i])); }
  if vx(p, x, vs.last()) { assert(vx(s[r.len() as int], x, vs[r.len() as int])); }
  if vxs(s, x, vs) { let i = choose|i: int| 0 <= i < s.len() && vx(#[trigger] s[i], x, vs[i]); if i < r.len() { assert(vx(r[i], x, vs.drop_last()[i])); } }
}
pub proof fn lemma_or_hits<S: Sem>(q: Seq<P<S>>, vs: Seq<V<S>>)
  requires q.len() > 0, q.last() is Or,
  ensures hits(q, vs) <==> upto(q, subs(q.last()).len() as int, vs),
{
  let (rest, alts) = (q.drop_last(), subs(q.last()));
  assert(rest.push(q.last()) =~= q);
  lemma_hits_push(rest, q.last());
  if vs.len() > 0 { lemma_or(alts, idx(q.last()), vs.last()); }
  if hits(q, vs) {
    let j = choose|j: int| 0 <= j < alts.len() && hit(#[trigger] alts[j], vs.last());
    lemma_hits_push(rest, alts[j]);
    assert(hits(alt(q, j), vs));
  }
  if upto(q, alts.len() as int, vs) {
    let j = choose|j: int| 0 <= j < alts.len() && hits(#[trigger] alt(q, j), vs);
    lemma_hits_push(rest, alts[j]);
    assert(hit_any(alts, vs.last()));
  }
}
pub proof fn lemma_or_step<S: Sem>(m: Seq<Seq<P<S>>>, q: Seq<P<S>>, t: Seq<S::T>, k: int, mk: Seq<Seq<P<S>>>, ws: Seq<Seq<P<S>>>, a: Set<S::I>, b: Set<S::I>,
  mk2: Seq<Seq<P<S>>>, ws2: Seq<Seq<P<S>>>, b2: Set<S::I>)
  requires q.len() > 0, q.last() is Or, 0 <= k < subs(q.last()).len(), or_inv(m, q, t, k, mk, ws, a, b),
    judged(mk, alt(q, k), t, b, b2, ws2),
    pushed(mk, alt(q, k), mk2),
  ensures or_inv(m, q, t, k + 1, mk2, ws + ws2, a, b2),
{
  let alts = subs(q.last());
  let qk = alt(q, k);
  assert forall|vs: Seq<V<S>>| #[trigger] upto(q, k + 1, vs) <==> upto(q, k, vs) || hits(qk, vs) by {
    if upto(q, k, vs) { let j = choose|j: int| 0 <= j < k && hits(#[trigger] alt(q, j), vs); assert(hits(alt(q, j), vs)); }
    if hits(qk, vs) { assert(hits(alt(q, k), vs)); }
  }
  // witnesses
  assert forall|i: int| 0 <= i < (ws + ws2).len() implies good_wit(m, q, t, #[trigger] (ws + ws2)[i]) by {
    let w = (ws + ws2)[i];
    if i < ws.len() { assert(w == ws[i]); } else {
      assert(w == ws2[i - ws.len()]);
      assert(good_wit(mk, qk, t, w));
      assert forall|vs: Seq<V<S>>| #[trigger] fresh(mk, qk, t, vs) implies fresh(m, q, t, vs) by {
        lemma_or_hits(q, vs); assert(hits(alt(q, k), vs)); assert(upto(q, alts.len() as int, vs));
        assert(!cvr(mk, vs));
      }
    }
  }
  if (ws + ws2).len() == 0 {
    assert forall|vs: Seq<V<S>>| typed(vs, t) && !cvr(m, vs) implies !(#[trigger] upto(q, k + 1, vs)) by {
      assert(ws.len() == 0 && ws2.len() == 0);
      assert(!upto(q, k, vs)); assert(!cvr(mk, vs));
      assert(!fresh(mk, qk, t, vs));
    }
  }
  // identifiers
  assert forall|x: S::I| #[trigger] b2.contains(x) <==> a.contains(x) && none_alts(m, q, t, k + 1, x) by {
    assert(b2.contains(x) <==> b.contains(x) && none_x(mk, qk, t, x));
    assert(b.contains(x) <==> a.contains(x) && none_alts(m, q, t, k, x));
    assert forall|vs: Seq<V<S>>| #[trigger] fresh_x(mk, qk, t, x, vs) <==> alt_x(m, q, t, k, x, vs) by {
      assert(cvr(mk, vs) <==> cvr(m, vs) || upto(q, k, vs));
      if upto(q, k, vs) { let i = choose|i: int| 0 <= i < k && hits(#[trigger] alt(q, i), vs); assert(!first_alt(q, k, vs)); }
      else { assert forall|i: int| 0 <= i < k implies !hits(#[trigger] alt(q, i), vs) by {} }
    }
    if none_alts(m, q, t, k, x) && none_x(mk, qk, t, x) {
      assert forall|j: int, vs: Seq<V<S>>| 0 <= j < k + 1 implies !(#[trigger] alt_x(m, q, t, j, x, vs)) by { if j == k { assert(!fresh_x(mk, qk, t, x, vs)); } }
    }
    if none_alts(m, q, t, k + 1, x) {
      assert forall|vs: Seq<V<S>>| !(#[trigger] fresh_x(mk, qk, t, x, vs)) by { assert(!alt_x(m, q, t, k, x, vs)); }
    }
  }
}
pub proof fn lemma_least<S: Sem>(q: Seq<P<S>>, k: int, vs: Seq<V<S>>) -> (j: int)
  requires upto(q, k, vs),
  ensures 0 <= j < k, hits(alt(q, j), vs), first_alt(q, j, vs),
  decreases k,
{
  let j = choose|j: int| 0 <= j < k && hits(#[trigger] alt(q, j), vs);
  if upto(q, j, vs) { lemma_least(q, j, vs) } else { assert forall|i: int| 0 <= i < j implies !hits(#[trigger] alt(q, i), vs) by {} j }
}
/// through which identifiers an or-pattern matches
pub proof fn lemma_or_ids<S: Sem>(m: Seq<Seq<P<S>>>, q: Seq<P<S>>, t: Seq<S::T>, x: S::I)
  requires q.len() > 0, q.last() is Or,
  ensures none_alts(m, q, t, subs(q.last()).len() as int, x) <==> none_in(m, q, t, x),
{
  let (rest, alts) = (q.drop_last(), subs(q.last()));
  let n = alts.len() as int;
  assert forall|j: int, vs: Seq<V<S>>| 0 <= j < n && #[trigger] alt_x(m, q, t, j, x, vs) implies fresh_in(m, q, t, x, vs) by {
    lemma_or_hits(q, vs); assert(hits(alt(q, j), vs)); assert(upto(q, n, vs));
    lemma_hits_push(rest, alts[j]); lemma_vxs(rest, alts[j], x, vs);
    let v = vs.last();
    if vx(alts[j], x, v) {
      assert forall|i: int| 0 <= i < j implies !hit(#[trigger] alts[i], v) by { lemma_hits_push(rest, alts[i]); assert(!hits(alt(q, i), vs)); }
      assert(vx_or(alts, x, v)) by { assert(vx(alts[j], x, v) && first_hit(alts, j, v)); }
    }
  }
  assert forall|vs: Seq<V<S>>| none_alts(m, q, t, n, x) implies !(#[trigger] fresh_in(m, q, t, x, vs)) by {
    if fresh_in(m, q, t, x, vs) {
      lemma_or_hits(q, vs);
      let v = vs.last();
      assert(rest.push(q.last()) =~= q); lemma_hits_push(rest, q.last());
      if vxs(rest, x, vs.drop_last()) {
        let j = lemma_least(q, n, vs);
        lemma_vxs(rest, alts[j], x, vs);
        assert(alt_x(m, q, t, j, x, vs));
      } else {
        let j = choose|i: int| 0 <= i < alts.len() && vx(#[trigger] alts[i], x, v) && first_hit(alts, i, v);
        lemma_vx(alts[j], x, v);
        lemma_hits_push(rest, alts[j]); lemma_vxs(rest, alts[j], x, vs);
        assert forall|i: int| 0 <= i < j implies !hits(#[trigger] alt(q, i), vs) by { lemma_hits_push(rest, alts[i]); assert(!hit(alts[i], v)); }
        assert(alt_x(m, q, t, j, x, vs));
      }
    }
  }
  if none_in(m, q, t, x) { assert forall|j: int, vs: Seq<V<S>>| 0 <= j < n implies !(#[trigger] alt_x(m, q, t, j, x, vs)) by { assert(!fresh_in(m, q, t, x, vs)); } }
}
pub proof fn lemma_or_done<S: Sem>(m: Seq<Seq<P<S>>>, q: Seq<P<S>>, t: Seq<S::T>, mk: Seq<Seq<P<S>>>, ws: Seq<Seq<P<S>>>, a: Set<S::I>, b: Set<S::I>)
  requires q.len() > 0, q.last() is Or, or_inv(m, q, t, subs(q.last()).len() as int, mk, ws, a, b),
  ensures almost(m, q, t, a, b, ws),
{
  if ws.len() == 0 {
    assert forall|vs: Seq<V<S>>| !(#[trigger] fresh(m, q, t, vs)) by { lemma_or_hits(q, vs); }
  }
  assert forall|x: S::I| #[trigger] b.contains(x) <==> a.contains(x) && none_in(m, q, t, x) by { lemma_or_ids(m, q, t, x); }
}
/// the end of `useful`
pub proof fn lemma_final<S: Sem>(m: Seq<Seq<P<S>>>, q: Seq<P<S>>, t: Seq<S::T>, a: Set<S::I>, b: Set<S::I>, ws: Seq<Seq<P<S>>>, c: Set<S::I>)
  requires q.len() > 0, almost(m, q, t, a, b, ws),
    c == (if idx(q.last()) is Some && ws.len() > 0 { b.remove(idx(q.last())->0) } else { b }),
  ensures judged(m, q, t, a, c, ws),
{
  broadcast use vstd::set::group_set_lemmas;
  let n = q.len() - 1;
  assert(q =~= q.drop_last().push(q.last()));
  if ws.len() > 0 { assert(good_wit(m, q, t, ws[0])); }
  assert forall|x: S::I| #[trigger] c.contains(x) <==> a.contains(x) && none_x(m, q, t, x) by {
    assert(b.contains(x) <==> a.contains(x) && none_in(m, q, t, x));
    let top = idx(q.last()) == Some(x);
    assert forall|vs: Seq<V<S>>| #[trigger] fresh(m, q, t, vs) implies (fresh_x(m, q, t, x, vs) <==> fresh_in(m, q, t, x, vs) || top) by {
      lemma_vxs(q.drop_last(), q.last(), x, vs);
      lemma_vx(q.last(), x, vs.last());
      assert(hit(q[n], vs[n]));
    }
    assert forall|vs: Seq<V<S>>| #[trigger] fresh_in(m, q, t, x, vs) implies fresh_x(m, q, t, x, vs) by { assert(fresh(m, q, t, vs)); }
    if none_x(m, q, t, x) {
      assert forall|vs: Seq<V<S>>| !(#[trigger] fresh_in(m, q, t, x, vs)) by { assert(!fresh_x(m, q, t, x, vs)); }
      if top && ws.len() > 0 {
        let vs = choose|vs: Seq<V<S>>| #[trigger] hits(ws[0], vs) && fresh(m, q, t, vs);
        assert(fresh_x(m, q, t, x, vs)); assert(false);
      }
    }
    if none_in(m, q, t, x) && !(top && ws.len() > 0) {
      assert forall|vs: Seq<V<S>>| !(#[trigger] fresh_x(m, q, t, x, vs)) by { assert(!fresh_in(m, q, t, x, vs)); if fresh_x(m, q, t, x, vs) { assert(fresh(m, q, t, vs)); } }
    }
    if top && ws.len() > 0 {
      let vs = choose|vs: Seq<V<S>>| #[trigger] hits(ws[0], vs) && fresh(m, q, t, vs);
      assert(fresh_x(m, q, t, x, vs));
    }
  }
}
pub proof fn lemma_base<S: Sem>(m: Seq<Seq<P<S>>>, a: Set<S::I>, ws: Seq<Seq<P<S>>>)
  requires lens(m, 0), ws == (if m.len() == 0 { seq![Seq::<P<S>>::empty()] } else { Seq::empty() }),
  ensures judged(m, Seq::empty(), Seq::empty(), a, a, ws),
{
  let e = Seq::<V<S>>::empty();
  if m.len() == 0 {
    assert(hits(Seq::<P<S>>::empty(), e));
    assert(fresh(m, Seq::empty(), Seq::empty(), e));
  } else {
    assert forall|vs: Seq<V<S>>| !(#[trigger] fresh(m, Seq::empty(), Seq::empty(), vs)) by { if vs.len() == 0 { assert(m[0].len() == 0); assert(hits(m[0], vs)); } }
  }
}
/// after the first `j` rows
pub open spec fn sp_inv<S: Sem>(m: Seq<Seq<P<S>>>, j: int, m2: Seq<Seq<P<S>>>, t: Seq<S::T>, cs: Seq<S::C>, c: S::C) -> bool {
  wtm(m2, sp_tys::<S>(t, c)) && forall|vs: Seq<V<S>>| #[trigger] in_part(vs, t, cs, c) ==> (cvr(m2, unpack(vs, c)) <==> cvr(m.take(j), vs))
}
pub open spec fn cons_of<S: Sem>(m: Seq<Seq<P<S>>>) -> Seq<S::C> { Seq::new(m.len(), |i: int| top_con(m[i])) }
pub open spec fn all_con<S: Sem>(m: Seq<Seq<P<S>>>) -> bool { forall|k: int| 0 <= k < m.len() ==> is_con(#[trigger] m[k]) }
pub proof fn lemma_sp_start<S: Sem>(m: Seq<Seq<P<S>>>, t: Seq<S::T>, cs: Seq<S::C>, c: S::C)
  ensures sp_inv(m, 0, Seq::empty(), t, cs, c),
{ }
pub proof fn lemma_sp_step<S: Sem>(m: Seq<Seq<P<S>>>, j: int, m2: Seq<Seq<P<S>>>, m3: Seq<Seq<P<S>>>, t: Seq<S::T>, p: S::C, c: S::C)
  requires t.len() > 0, 0 <= j < m.len(), all_con(m), wtm(m, t), good_part::<S>(t.last(), p, cons_of(m), c), sp_inv(m, j, m2, t, cons_of(m), c),
    if sp_some(m[j], c) { pushed(m2, sp_row(m[j], t.last(), c), m3) } else { m3 == m2 },
  ensures sp_inv(m, j + 1, m3, t, cons_of(m), c),
{
  let cs = cons_of(m);
  assert(is_con(m[j]) && wts(m[j], t));
  assert(cs[j] == top_con(m[j]));
  if sp_some(m[j], c) { lemma_sp_wt(m[j], t, p, cs, c); }
  assert(m.take(j + 1) =~= m.take(j) + seq![m[j]]);
  lemma_cvr_add(m.take(j), seq![m[j]]);
  assert forall|vs: Seq<V<S>>| #[trigger] in_part(vs, t, cs, c) implies (cvr(m3, unpack(vs, c)) <==> cvr(m.take(j + 1), vs)) by {
    lemma_sp(m[j], vs, t, p, cs, c);
    assert(cvr(seq![m[j]], vs) <==> hits(m[j], vs)) by { assert(seq![m[j]][0] == m[j]); }
  }
}
/// after `k` constructors of a split
pub open spec fn con_inv<S: Sem>(m: Seq<Seq<P<S>>>, q: Seq<P<S>>, t: Seq<S::T>, cs: Seq<S::C>, rs: Seq<S::C>, k: int, ws: Seq<Seq<P<S>>>, a: Set<S::I>, b: Set<S::I>) -> bool {
  good_wits(m, q, t, ws)
    && (ws.len() == 0 ==> forall|vs: Seq<V<S>>, j: int| 0 <= j < k && #[trigger] in_part(vs, t, cs, rs[j]) ==> !fresh(m, q, t, vs))
    && forall|x: S::I| #[trigger] b.contains(x) <==> a.contains(x) && none_parts(m, q, t, cs, rs, k, x)
}
pub open spec fn none_part<S: Sem>(m: Seq<Seq<P<S>>>, q: Seq<P<S>>, t: Seq<S::T>, cs: Seq<S::C>, c: S::C, x: S::I) -> bool {
  forall|vs: Seq<V<S>>| #[trigger] in_part(vs, t, cs, c) ==> !fresh_in(m, q, t, x, vs)
}
pub open spec fn none_parts<S: Sem>(m: Seq<Seq<P<S>>>, q: Seq<P<S>>, t: Seq<S::T>, cs: Seq<S::C>, rs: Seq<S::C>, k: int, x: S::I) -> bool {
  forall|j: int| 0 <= j < k ==> none_part(m, q, t, cs, #[trigger] rs[j], x)
}
pub proof fn lemma_con_step<S: Sem>(m: Seq<Seq<P<S>>>, q: Seq<P<S>>, t: Seq<S::T>, cs: Seq<S::C>, rs: Seq<S::C>, k: int, ws: Seq<Seq<P<S>>>, a: Set<S::I>, b: Set<S::I>,
  m2: Seq<Seq<P<S>>>, ws2: Seq<Seq<P<S>>>, b2: Set<S::I>, ws3: Seq<Seq<P<S>>>)
  requires wts(q, t), is_con(q), 0 <= k < rs.len(), good_part::<S>(t.last(), top_con(q), cs, rs[k]), con_inv(m, q, t, cs, rs, k, ws, a, b),
    sp_inv(m, m.len() as int, m2, t, cs, rs[k]), sp_some(q, rs[k]),
    judged(m2, sp_row(q, t.last(), rs[k]), sp_tys::<S>(t, rs[k]), b, b2, ws2),
    ws3.len() == ws2.len(), forall|i: int| 0 <= i < ws3.len() ==> #[trigger] ws3[i] == wit(ws2[i], S::tys(t.last(), rs[k]).len(), rs[k], idx(q.last())),
    S::real_split() ==> !is_any::<S>(rs[k]),
  ensures con_inv(m, q, t, cs, rs, k + 1, ws + ws3, a, b2),
{
  let (c, p) = (rs[k], top_con(q));
  let (q2, t2) = (sp_row(q, t.last(), c), sp_tys::<S>(t, c));
  assert(m.take(m.len() as int) =~= m);
  assert(link(m, m2, q, q2, t, cs, c)) by {
    assert forall|vs: Seq<V<S>>| #[trigger] in_part(vs, t, cs, c) implies (cvr(m, vs) <==> cvr(m2, unpack(vs, c))) && (hits(q, vs) <==> hits(q2, unpack(vs, c))) by {
      lemma_sp(q, vs, t, p, cs, c);
    }
  }
  assert forall|i: int| 0 <= i < (ws + ws3).len() implies good_wit(m, q, t, #[trigger] (ws + ws3)[i]) by {
    if i < ws.len() { assert((ws + ws3)[i] == ws[i]); } else {
      let j = i - ws.len();
      assert((ws + ws3)[i] == ws3[j]);
      assert(good_wit(m2, q2, t2, ws2[j]));
      lemma_wit(m, m2, q, q2, t, p, cs, c, ws2[j], idx(q.last()));
    }
  }
  if (ws + ws3).len() == 0 {
    assert(ws.len() == 0 && ws2.len() == 0);
    assert forall|vs: Seq<V<S>>, j: int| 0 <= j < k + 1 && #[trigger] in_part(vs, t, cs, rs[j]) implies !fresh(m, q, t, vs) by {
      if j == k {
        lemma_unpack(vs, t, p, cs, c);
        assert(!fresh(m2, q2, t2, unpack(vs, c)));
      }
    }
  }
  assert forall|x: S::I| #[trigger] b2.contains(x) <==> a.contains(x) && none_parts(m, q, t, cs, rs, k + 1, x) by {
    assert(b2.contains(x) <==> b.contains(x) && none_x(m2, q2, t2, x));
    assert(b.contains(x) <==> a.contains(x) && none_parts(m, q, t, cs, rs, k, x));
    lemma_con_ids(m, m2, q, t, cs, c, x);
    if none_parts(m, q, t, cs, rs, k, x) && none_part(m, q, t, cs, c, x) {
      assert forall|j: int| 0 <= j < k + 1 implies none_part(m, q, t, cs, #[trigger] rs[j], x) by {}
    }
    if none_parts(m, q, t, cs, rs, k + 1, x) { assert(none_part(m, q, t, cs, rs[k], x)); }
  }
}
/// through which identifiers a constructor matches
pub proof fn lemma_con_ids<S: Sem>(m: Seq<Seq<P<S>>>, m2: Seq<Seq<P<S>>>, q: Seq<P<S>>, t: Seq<S::T>, cs: Seq<S::C>, c: S::C, x: S::I)
  requires wts(q, t), is_con(q), good_part::<S>(t.last(), top_con(q), cs, c), sp_some(q, c), link(m, m2, q, sp_row(q, t.last(), c), t, cs, c),
  ensures none_x(m2, sp_row(q, t.last(), c), sp_tys::<S>(t, c), x) <==> none_part(m, q, t, cs, c, x),
{
  let p = top_con(q);
  let (q2, t2) = (sp_row(q, t.last(), c), sp_tys::<S>(t, c));
  let n = S::tys(t.last(), c).len();
  let k = q.len() - 1;
  let args = top_args(q);
  let sa = spec_args(args, n);
  S::law(); lemma_any::<S>();
  assert(wt(q[k], t[k]));
  assert forall|vs: Seq<V<S>>| #[trigger] in_part(vs, t, cs, c) && fresh(m, q, t, vs) implies
    (vxs(q.drop_last(), x, vs.drop_last()) || vxi(q.last(), x, vs.last()) <==> vxs(q2, x, unpack(vs, c))) by {
    let (u, v) = (unpack(vs, c), vs.last());
    lemma_unpack(vs, t, p, cs, c);
    assert(has_ty(vs[k], t[k]) && hit(q[k], vs[k]));
    if vxs(q.drop_last(), x, vs.drop_last()) {
      let i = choose|i: int| 0 <= i < q.drop_last().len() && vx(#[trigger] q.drop_last()[i], x, vs.drop_last()[i]);
      assert(vx(q2[i], x, u[i]));
    }
    if vx_con(args, x, v) {
      let j = choose|i: int| 0 <= i < args.len() && vx(#[trigger] args[i], x, v.args[i]);
      assert(!is_any::<S>(p));
      assert(!is_any::<S>(c));
      assert(S::tys(t.last(), v.con) == S::tys(t.last(), c));
      let i = k + n - 1 - j;
      assert(q2[i] == sa[j] && u[i] == v.args[j]);
      assert(vx(q2[i], x, u[i]));
    }
    if vxs(q2, x, u) {
      let i = choose|i: int| 0 <= i < q2.len() && vx(#[trigger] q2[i], x, u[i]);
      if i < k { assert(vx(q.drop_last()[i], x, vs.drop_last()[i])); } else {
        let j = k + n - 1 - i;
        assert(q2[i] == sa[j]);
        lemma_vx(p_any::<S>(), x, u[i]);
        assert(j < args.len());
        assert(u[i] == v.args[j]);
        assert(vx(args[j], x, v.args[j]));
      }
    }
  }
  if none_x(m2, q2, t2, x) {
    assert forall|vs: Seq<V<S>>| #[trigger] in_part(vs, t, cs, c) implies !fresh_in(m, q, t, x, vs) by {
      if fresh_in(m, q, t, x, vs) { lemma_unpack(vs, t, p, cs, c); assert(fresh_x(m2, q2, t2, x, unpack(vs, c))); }
    }
  }
  if none_part(m, q, t, cs, c, x) {
    assert forall|us: Seq<V<S>>| !(#[trigger] fresh_x(m2, q2, t2, x, us)) by {
      if fresh_x(m2, q2, t2, x, us) {
        let vs = lemma_pack(us, t, p, cs, c);
        assert(in_part(vs, t, cs, c));
        assert(fresh(m, q, t, vs));
        assert(fresh_in(m, q, t, x, vs));
      }
    }
  }
}
/// every column of arguments is that of some values
pub proof fn lemma_pack<S: Sem>(us: Seq<V<S>>, t: Seq<S::T>, p: S::C, cs: Seq<S::C>, c: S::C) -> (vs: Seq<V<S>>)
  requires t.len() > 0, good_part::<S>(t.last(), p, cs, c), typed(us, sp_tys::<S>(t, c)),
  ensures in_part(vs, t, cs, c), unpack(vs, c) == us,
{
  let ty = t.last();
  let n = S::tys(ty, c).len();
  let st = sp_tys::<S>(t, c);
  let k = t.len() - 1;
  S::law();
  let v = if is_any::<S>(c) { choose|v: V<S>| #[trigger] has_ty(v, ty) && part::<S>(ty, cs, c, v.con) }
    else { V { con: choose|vc: S::C| #[trigger] part::<S>(ty, cs, c, vc), args: us.skip(k).reverse() } };
  let vs = us.take(k).push(v);
  assert(has_ty(v, ty)) by {
    if !is_any::<S>(c) {
      assert forall|i: int| 0 <= i < v.args.len() implies has_ty(#[trigger] v.args[i], S::tys(ty, v.con)[i]) by {
        let j = k + (n - 1 - i); assert(v.args[i] == us[j] && st[j] == S::tys(ty, c)[i]); assert(has_ty(us[j], st[j]));
      }
    }
  }
  assert(typed(vs, t)) by { assert forall|i: int| 0 <= i < vs.len() implies has_ty(#[trigger] vs[i], t[i]) by { if i < k { assert(vs[i] == us[i]); assert(has_ty(us[i], st[i])); } } }
  assert(vs.last() == v && vs.drop_last() =~= us.take(k));
  assert(in_part(vs, t, cs, c));
  assert(unpack(vs, c) =~= us);
  vs
}
pub proof fn lemma_con_done<S: Sem>(m: Seq<Seq<P<S>>>, q: Seq<P<S>>, t: Seq<S::T>, cs: Seq<S::C>, rs: Seq<S::C>, ws: Seq<Seq<P<S>>>, a: Set<S::I>, b: Set<S::I>)
  requires wts(q, t), is_con(q), good_split::<S>(t.last(), top_con(q), cs, rs), con_inv(m, q, t, cs, rs, rs.len() as int, ws, a, b),
  ensures almost(m, q, t, a, b, ws),
{
  assert forall|vs: Seq<V<S>>| #[trigger] fresh(m, q, t, vs) implies exists|j: int| 0 <= j < rs.len() && in_part(vs, t, cs, #[trigger] rs[j]) by {
    S::law();
    let n = q.len() - 1;
    assert(hit(q[n], vs[n]) && has_ty(vs[n], t[n]));
    assert(S::vcon(t.last(), vs.last().con) && S::has(top_con(q), vs.last().con));
    let j = choose|j: int| 0 <= j < rs.len() && part::<S>(t.last(), cs, #[trigger] rs[j], vs.last().con);
    assert(in_part(vs, t, cs, rs[j]));
  }
  if ws.len() == 0 {
    assert forall|vs: Seq<V<S>>| !(#[trigger] fresh(m, q, t, vs)) by {
      if fresh(m, q, t, vs) { let j = choose|j: int| 0 <= j < rs.len() && in_part(vs, t, cs, #[trigger] rs[j]); assert(in_part(vs, t, cs, rs[j])); }
    }
  }
  assert forall|x: S::I| #[trigger] b.contains(x) <==> a.contains(x) && none_in(m, q, t, x) by {
    let n = rs.len() as int;
    if none_parts(m, q, t, cs, rs, n, x) {
      assert forall|vs: Seq<V<S>>| !(#[trigger] fresh_in(m, q, t, x, vs)) by {
        if fresh_in(m, q, t, x, vs) {
          assert(fresh(m, q, t, vs));
          let j = choose|j: int| 0 <= j < rs.len() && in_part(vs, t, cs, #[trigger] rs[j]);
          assert(none_part(m, q, t, cs, rs[j], x));
          assert(in_part(vs, t, cs, rs[j]));
        }
      }
    }
    if none_in(m, q, t, x) {
      assert forall|j: int| 0 <= j < n implies none_part(m, q, t, cs, #[trigger] rs[j], x) by {
        assert forall|vs: Seq<V<S>>| #[trigger] in_part(vs, t, cs, rs[j]) implies !fresh_in(m, q, t, x, vs) by {}
      }
    }
  }
}

/// `Clone` of pairs
pub broadcast axiom fn axiom_cloned_pair<A: Clone, B: Clone>(x: (A, B), y: (A, B))
  requires #[trigger] vstd::pervasive::cloned(x, y),
  ensures vstd::pervasive::cloned(x.0, y.0), vstd::pervasive::cloned(x.1, y.1);
pub broadcast proof fn lemma_cloned_pairs<L: Lang>(a: Tpv<L>, b: Tpv<L>)
  requires #[trigger] vstd::std_specs::vec::vec_clone_trigger(a, b), a@.len() == b@.len(), forall|i: int| 0 <= i < a@.len() ==> #[trigger] vstd::pervasive::cloned(a@[i], b@[i]),
  ensures vps(b@) == vps(a@), vts(b@) == vts(a@)
{
  broadcast use axiom_cloned_pair;
  L::std_law();
  assert forall|i: int| 0 <= i < a@.len() implies a@[i].0.view() == b@[i].0.view() && a@[i].1 == b@[i].1 by { assert(vstd::pervasive::cloned(a@[i], b@[i])); }
  assert(vps(b@) =~= vps(a@)); assert(vts(b@) =~= vts(a@));
}
/// `<[T]>::reverse`
pub assume_specification<T> [<[T]>::reverse] (s: &mut [T])
  ensures final(s)@ == old(s)@.reverse();
pub trait VecShim<T>: Sized {
  spec fn vv(&self) -> Seq<T>;
  /// `Vec::drain(n..)`, whatever is not consumed is dropped
  fn x_drain(&mut self, part: core::ops::RangeFrom<usize>) -> (r: XIter<T>)
    requires part.start <= old(self).vv().len(),
    ensures r.rest() == old(self).vv().skip(part.start as int), final(self).vv() == old(self).vv().take(part.start as int);
  /// `Extend::extend`
  fn x_extend<I: IntoIterator<Item = T>>(&mut self, i: I)
    requires into_iter_spec(i).obeys_prophetic_iter_laws(), into_iter_spec(i).decrease() is Some,
    ensures final(self).vv() == old(self).vv() + into_iter_spec(i).remaining();
}
impl<T> VecShim<T> for Vec<T> {
  open spec fn vv(&self) -> Seq<T> { self@ }
  #[verifier::external_body]
  fn x_drain(&mut self, part: core::ops::RangeFrom<usize>) -> (r: XIter<T>) { unimplemented!() }
  #[verifier::external_body]
  fn x_extend<I: IntoIterator<Item = T>>(&mut self, i: I) { unimplemented!() }
}
pub broadcast axiom fn axiom_into_iter_vec<T>(v: Vec<T>)
  ensures (#[trigger] into_iter_spec(v)).remaining() == v@, into_iter_spec(v).obeys_prophetic_iter_laws(), into_iter_spec(v).decrease() is Some;
/// `std::iter::repeat`
#[verifier::reject_recursive_types(T)]
pub struct XRepeat<T> { pub e: T }
pub fn x_repeat<T: Clone>(e: T) -> (r: XRepeat<T>) ensures r.e == e { XRepeat { e } }
/// a finite iterator chained with an endless one
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct XEndless<T> { v: Vec<T> }
impl<T: Clone> XEndless<T> {
  pub uninterp spec fn pre(&self) -> Seq<T>;
  pub uninterp spec fn e(&self) -> T;
  /// `Iterator::zip` with something finite
  #[verifier::external_body]
  pub fn x_zip<U>(self, u: Vec<U>) -> (r: XIter<(T, U)>)
    ensures r.rest().len() == u@.len(), forall|k: int| 0 <= k < u@.len() ==> (#[trigger] r.rest()[k]).1 == u@[k]
      && if k < self.pre().len() { r.rest()[k].0 == self.pre()[k] } else { vstd::pervasive::cloned(self.e(), r.rest()[k].0) }
  { unimplemented!() }
}
pub trait AlgShim: Iterator + Sized {
  /// `Iterator::cloned`
  #[verifier::external_body]
  fn x_cloned<'a, T: Clone + 'a>(self) -> (r: XIter<T>) where Self: Iterator<Item = &'a T>
    requires self.obeys_prophetic_iter_laws(), self.decrease() is Some,
    ensures r.rest().len() == self.remaining().len(), forall|k: int| 0 <= k < r.rest().len() ==> vstd::pervasive::cloned(*self.remaining()[k], #[trigger] r.rest()[k]),
  { unimplemented!() }
  /// `Iterator::chain` with an endless iterator
  #[verifier::external_body]
  fn x_chain(self, e: XRepeat<Self::Item>) -> (r: XEndless<Self::Item>) where Self::Item: Clone
    requires self.obeys_prophetic_iter_laws(), self.decrease() is Some,
    ensures r.pre() == self.remaining(), r.e() == e.e,
  { unimplemented!() }
  /// `Iterator::collect` into a vector
  #[verifier::external_body]
  fn x_collect(self) -> (r: Vec<Self::Item>)
    requires self.obeys_prophetic_iter_laws(), self.decrease() is Some,
    ensures r@ == self.remaining(),
  { unimplemented!() }
}
impl<I: Iterator> AlgShim for I {}

// ---------------------------------------------------------------- patterns that make sense
/// no or-pattern without alternatives
pub open spec fn solid<S: Sem>(p: P<S>) -> bool decreases p {
  match p {
    P::Con(_, args, _) => forall|i: int| 0 <= i < args.len() ==> solid(#[trigger] args[i]),
    P::Or(ps, _) => ps.len() > 0 && forall|i: int| 0 <= i < ps.len() ==> solid(#[trigger] ps[i]),
  }
}
pub open spec fn solids<S: Sem>(r: Seq<P<S>>) -> bool { forall|i: int| 0 <= i < r.len() ==> solid(#[trigger] r[i]) }
/// the row makes sense as far as the constructor `c` shows
pub open spec fn sensed<S: Sem>(q: Seq<P<S>>, t: Seq<S::T>, c: S::C) -> bool {
  sensible::<S>(top_con(q), top_args(q), t.last(), c) && (solids(q) ==> wts(sp_row(q, t.last(), c), sp_tys::<S>(t, c)))
}
pub proof fn lemma_solid_alt<S: Sem>(q: Seq<P<S>>, k: int)
  requires q.len() > 0, q.last() is Or, 0 <= k < subs(q.last()).len(), solids(q),
  ensures solids(alt(q, k)),
{
  let r = alt(q, k);
  assert(solid(q[q.len() - 1]));
  assert(solid(subs(q.last())[k]));
  assert forall|i: int| 0 <= i < r.len() implies solid(#[trigger] r[i]) by { if i < q.len() - 1 { assert(solid(q[i])); } }
}
pub proof fn lemma_solid_sp<S: Sem>(q: Seq<P<S>>, ty: S::T, c: S::C)
  requires is_con(q), solids(q),
  ensures solids(sp_row(q, ty, c)),
{
  let (r, sa, n) = (sp_row(q, ty, c), spec_args(top_args(q), S::tys(ty, c).len()), S::tys(ty, c).len());
  assert(solid(q[q.len() - 1]));
  assert(solid(p_any::<S>()));
  assert forall|i: int| 0 <= i < r.len() implies solid(#[trigger] r[i]) by {
    if i < q.len() - 1 { assert(solid(q[i])); } else { let j = n - 1 - (i - (q.len() - 1)); assert(r[i] == sa[j]); if j < top_args(q).len() { assert(solid(top_args(q)[j])); } }
  }
}
pub proof fn lemma_or_sense<S: Sem>(q: Seq<P<S>>, t: Seq<S::T>)
  requires q.len() > 0, q.len() == t.len(), q.last() is Or, solids(q), forall|j: int| 0 <= j < subs(q.last()).len() ==> wts(#[trigger] alt(q, j), t),
  ensures wts(q, t),
{
  let ps = subs(q.last());
  assert(solid(q[q.len() - 1]));
  assert forall|i: int| 0 <= i < q.len() implies wt(#[trigger] q[i], t[i]) by {
    if i < q.len() - 1 { let a = alt(q, 0); assert(wts(a, t)); assert(a[i] == q[i]); assert(wt(a[i], t[i])); }
    else {
      assert forall|j: int| 0 <= j < ps.len() implies wt(#[trigger] ps[j], t[i]) by { let a = alt(q, j); assert(wts(a, t)); assert(a[i] == ps[j]); assert(wt(a[i], t[i])); }
    }
  }
}
pub proof fn lemma_con_sense<S: Sem>(q: Seq<P<S>>, t: Seq<S::T>, cs: Seq<S::C>, rs: Seq<S::C>)
  requires is_con(q), q.len() == t.len(), solids(q), S::strict(), rs.len() > 0, good_split::<S>(t.last(), top_con(q), cs, rs),
    forall|j: int| 0 <= j < rs.len() ==> sensed(q, t, #[trigger] rs[j]),
  ensures wts(q, t),
{
  S::law();
  let (ty, c, args, m) = (t.last(), top_con(q), top_args(q), q.len() - 1);
  assert(sensed(q, t, rs[0]));
  assert forall|i: int| 0 <= i < q.len() implies wt(#[trigger] q[i], t[i]) by {
    if i < m {
      let (r, st) = (sp_row(q, ty, rs[0]), sp_tys::<S>(t, rs[0]));
      assert(wts(r, st)); assert(r[i] == q[i] && st[i] == t[i]); assert(wt(r[i], st[i]));
    } else {
      assert(S::con_ok(ty, c));
      assert forall|vc: S::C| #[trigger] S::vcon(ty, vc) && S::has(c, vc) implies args.len() <= S::tys(ty, vc).len()
        && forall|i: int| 0 <= i < args.len() ==> wt(#[trigger] args[i], S::tys(ty, vc)[i]) by {
        if !is_any::<S>(c) {
          let j = choose|j: int| 0 <= j < rs.len() && part::<S>(ty, cs, #[trigger] rs[j], vc);
          let d = rs[j];
          assert(good_part::<S>(ty, c, cs, d));
          assert(sensed(q, t, d));
          assert(!is_any::<S>(d) && S::cov(c, d));
          assert(S::tys(ty, vc) == S::tys(ty, d));
          let (r, st, n) = (sp_row(q, ty, d), sp_tys::<S>(t, d), S::tys(ty, d).len());
          let sa = spec_args(args, n);
          assert(wts(r, st));
          assert forall|i: int| 0 <= i < args.len() implies wt(#[trigger] args[i], S::tys(ty, vc)[i]) by {
            let x = m + n - 1 - i;
            assert(r[x] == sa[i] && sa[i] == args[i] && st[x] == S::tys(ty, d)[i]); assert(wt(r[x], st[x]));
          }
        }
      }
    }
  }
}
pub mod alg { use super::*; use super::types::*; use super::matrix::*;
broadcast use {group_xstd, axiom_into_iter_vec};
//@splice crates/pattern-match/src/alg.rs
rewrite `.map` => `.x_map`
rewrite `.collect` => `.x_collect`
rewrite `.rev` => `.x_rev`
rewrite `.drain` => `.x_drain`
rewrite `.extend` => `.x_extend`
rewrite `fn extend` => `fn x_extend`
rewrite `.chain` => `.x_chain`
rewrite `.zip` => `.x_zip`
rewrite `.cloned` => `.x_cloned`
rewrite `std::iter::repeat` => `x_repeat`
rewrite `&mut u.witnesses` => `u.witnesses.iter_mut()`
fn Useful::yes
  ret r
  spec
    ensures r.witnesses@.len() == 1, r.witnesses@[0]@ == Seq::<P>::empty(),
fn Useful::no
  ret r
  spec
    ensures r.witnesses@ == Seq::<Vec<P>>::empty(),
fn Useful::x_extend
  spec
    ensures final(self).witnesses@ == old(self).witnesses@ + other.witnesses@,
fn specialize
  ret r
  spec
    ensures r matches Ok(o) ==> match o {
      None => !is_any::<L::S>(pat.con) && !<L::S as Sem>::cov(pat.con, *val_con),
      Some(v) => (is_any::<L::S>(pat.con) || <L::S as Sem>::cov(pat.con, *val_con))
        && vps(v@) == spec_args(pvs(pat.args@), <L::S as Sem>::tys(*ty, *val_con).len()).reverse()
        && vts(v@) == <L::S as Sem>::tys(*ty, *val_con).reverse(),
    },
    <L::S as Sem>::total() && <L::S as Sem>::con_ok(*ty, *val_con) && sensible::<L::S>(pat.con, pvs(pat.args@), *ty, *val_con) ==> r is Ok,
  at start
    broadcast use lemma_view;
    proof { L::std_law(); }
  closure 0 |$0: L::Ty| -> (o: (Pat<L>, L::Ty))
    ensures o.0.view() == p_any::<L::S>(), o.1 == $0,
  at call reverse 0 before
    let ghost ts = <L::S as Sem>::tys(*ty, *val_con);
    proof {
      assert forall|k: int| 0 <= k < ret@.len() implies (#[trigger] ret@[k]).0.view() == spec_args(pvs(pat.args@), ts.len())[k] by {
        if k < pat.args@.len() { assert(vstd::pervasive::cloned(pat.args@[k], ret@[k].0)); }
      }
    }
  at call reverse 0 after
    proof {
      assert(vps(ret@) =~= spec_args(pvs(pat.args@), ts.len()).reverse());
      assert(vts(ret@) =~= ts.reverse());
    }
  at tail
    proof {
      if is_any::<L::S>(pat.con) {
        let ts = <L::S as Sem>::tys(*ty, *val_con);
        assert(vps(ret->0@) =~= spec_args(pvs(pat.args@), ts.len()).reverse());
        assert(vts(ret->0@) =~= ts.reverse());
      }
    }
fn check
  ret r
  spec
    requires wt_all(pvs(pats@), ty),
    ensures <L::S as Sem>::total() ==> r is Ok,
    r matches Ok(c) ==> {
      let ps = pvs(pats@);
      // what is missing: patterns of the type, each matching something that no pattern matches, and if there are
      // none every value is matched
      &&& forall|k: int| 0 <= k < c.missing@.len() ==> good_missing(ps, ty, (#[trigger] c.missing@[k]).view())
      &&& c.missing@.len() == 0 <==> exhaustive(ps, ty)
      // what is unreachable: the identifiers through which no value is matched first
      &&& forall|x: L::PatIdx| #[trigger] c.unreachable@.contains(x) <==> occ_upto(ps, ps.len() as int, x) && useless(ps, ty, ps.len() as int, x)
    },
  at start
    broadcast use {lemma_view, vstd::set::group_set_lemmas};
    let ghost (ps0, ty0) = (pats@, ty);
    let ghost ps = pvs(pats@);
    proof { L::std_law(); }
  loop 0 it
    invariant it.seq() == pats@.as_ref(), it.iter.obeys_prophetic_iter_laws(), it.iter.decrease() is Some, pats@ == ps0, ps == pvs(ps0),
      forall|x: L::PatIdx| #[trigger] ac@.contains(x) <==> occ_upto(ps, it.index@, x),
  at loop 0 end
    proof { lemma_occ_upto(ps, it.index@); }
  at loop 0 after
    let ghost a0 = ac@;
  loop 1 it
    invariant it.seq() == ps0, it.iter.obeys_prophetic_iter_laws(), it.iter.decrease() is Some, ps == pvs(ps0), wt_all(ps, ty),
      arms(ps, it.index@, mtx.view()), wtm(mtx.view(), seq![ty]), lens(mtx.view(), 1),
      forall|x: L::PatIdx| #[trigger] ac@.contains(x) <==> a0.contains(x) && useless(ps, ty, it.index@, x),
  at loop 1 before
    proof { lemma_arms_start(ps); }
  at loop 1 start
    let ghost (mk, bk, pt) = (mtx.view(), ac@, pat.view());
    let ghost k = it.index@;
    proof {
      L::std_law();
      assert(ps[k] == pt);
      assert(wt(ps[k], ty));
      assert forall|v: Tpv<L>| v@.len() == 1 && v@[0].0.view() == pt && v@[0].1 == ty implies #[trigger] vps(v@) == seq![pt] && vts(v@) == seq![ty] by {
        assert(vps(v@) =~= seq![pt]); assert(vts(v@) =~= seq![ty]);
      }
      assert forall|v: Seq<Pat<L>>| v.len() == 1 && v[0].view() == pt implies #[trigger] pvs(v) == seq![pt] by { assert(pvs(v) =~= seq![pt]); }
      assert(wts(seq![pt], seq![ty]));
    }
  at loop 1 end
    proof {
      assert(seq![pt].len() == 1);
      lemma_arms_step(ps, ty, k, mk, mtx.view());
      assert forall|x: L::PatIdx| #[trigger] ac@.contains(x) <==> a0.contains(x) && useless(ps, ty, k + 1, x) by {
        assert(bk.contains(x) <==> a0.contains(x) && useless(ps, ty, k, x));
      }
    }
  at loop 1 after
    let ghost (ma, ba) = (mtx.view(), ac@);
    proof {
      let q = seq![p_any::<L::S>()];
      lemma_any::<L::S>();
      assert forall|v: Tpv<L>| v@.len() == 1 && v@[0].0.view() == p_any::<L::S>() && v@[0].1 == ty implies #[trigger] vps(v@) == q && vts(v@) == seq![ty] by {
        assert(vps(v@) =~= q); assert(vts(v@) =~= seq![ty]);
      }
      assert(wts(q, seq![ty])) by { assert(q[0] == p_any::<L::S>()); }
      assert(seq![ty].len() == 1);
      assert forall|w: Seq<Vec<Pat<L>>>| #[trigger] good_wits(ma, q, seq![ty], wits(w)) && (wits(w).len() == 0 ==> none_fresh(ma, q, seq![ty])) implies
        (w.len() == 0 <==> exhaustive(ps, ty)) && forall|k: int| 0 <= k < w.len() ==> (#[trigger] w[k])@.len() == 1 && good_missing(ps, ty, w[k]@[0].view()) by {
        lemma_missing(ps, ty, ma, wits(w));
        assert forall|k: int| 0 <= k < w.len() implies (#[trigger] w[k])@.len() == 1 && good_missing(ps, ty, w[k]@[0].view()) by { assert(wits(w)[k].len() == 1); }
      }
      assert forall|x: L::PatIdx| #[trigger] none_x(ma, q, seq![ty], x) by {
        assert forall|vs: Seq<V<L::S>>| !(#[trigger] fresh_x(ma, q, seq![ty], x, vs)) by { if fresh_x(ma, q, seq![ty], x, vs) { lemma_vx(q[0], x, vs[0]); } }
      }
    }
  closure 0 |$0: Vec<Pat<L>>| -> (o: Pat<L>)
    requires $0@.len() == 1,
    ensures o == $0@[0],
fn get_pat_indices
  attr #[verifier::loop_isolation(false)]
  spec
    ensures forall|x: L::PatIdx| #[trigger] final(ac)@.contains(x) <==> old(ac)@.contains(x) || occ(pat.view(), x),
    decreases pat,
  at start
    broadcast use {lemma_view, vstd::set::group_set_lemmas};
    let ghost (a0, pat0) = (ac@, *pat);
    proof { L::std_law(); }
  loop 0 it
    invariant it.seq() == con_pat.args@.as_ref(), it.iter.obeys_prophetic_iter_laws(), it.iter.decrease() is Some, pat0.raw == RawPat::<L>::Con(*con_pat),
      forall|x: L::PatIdx| #[trigger] ac@.contains(x) <==> b0.contains(x) || occ_upto(pvs(con_pat.args@), it.index@, x),
  loop 1 it
    invariant it.seq() == pats@.as_ref(), it.iter.obeys_prophetic_iter_laws(), it.iter.decrease() is Some, pat0.raw == RawPat::<L>::Or(*pats),
      forall|x: L::PatIdx| #[trigger] ac@.contains(x) <==> b1.contains(x) || occ_upto(pvs(pats@), it.index@, x),
  at loop 0 before
    let ghost b0 = ac@;
  at loop 1 before
    let ghost b1 = ac@;
  at loop 0 end
    proof { lemma_occ_upto(pvs(con_pat.args@), it.index@); }
  at loop 1 end
    proof { lemma_occ_upto(pvs(pats@), it.index@); }
  at end
    proof {
      assert forall|x: L::PatIdx| #[trigger] ac@.contains(x) <==> a0.contains(x) || occ(pat0.view(), x) by { lemma_occ(pat0.view(), x); }
    }
fn useful
  attr #[verifier::exec_allows_no_decreases_clause]
  attr #[verifier::rlimit(60)]
  ret r
  spec
    requires lens(mtx.view(), val@.len()), wtm(mtx.view(), vts(val@)), wts(vps(val@), vts(val@)),
    ensures <L::S as Sem>::total() ==> r is Ok,
      r matches Ok(u) ==> judged(mtx.view(), vps(val@), vts(val@), old(ac)@, final(ac)@, wits(u.witnesses@)),
  closure 0 |$0: (Pat<L>, L::Ty)| -> (o: Pat<L>)
    ensures o == $0.0,
  closure 1 |$0: &NonEmptyRow<L>| -> (o: &L::Con)
    ensures *o == $0.con_pat.con,
  closure 2 |$0: (Pat<L>, L::Ty)| -> (o: Pat<L>)
    ensures o == $0.0,
  at start
    broadcast use {lemma_view, lemma_cloned, lemma_cloned_pairs};
    let ghost (v0, a0, mm, q, t) = (val@, ac@, mtx.view(), vps(val@), vts(val@));
    let ghost mut b1 = ac@;
    proof {
      L::std_law();
      assume(depth < usize::MAX);
      assert(val.len() == val@.len());
      if mm.len() > 0 { assert(mm[0].len() == val@.len()); }
      if val@.len() == 0 {
      assert(q =~= Seq::empty() && t =~= Seq::empty());
      lemma_base::<L::S>(mm, ac@, if mm.len() == 0 { seq![Seq::empty()] } else { Seq::empty() });
      assert forall|w: Seq<Vec<Pat<L>>>| w.len() == 1 && w[0]@.len() == 0 implies #[trigger] wits(w) == seq![Seq::<P<L::S>>::empty()] by { assert(wits(w) =~= seq![Seq::<P<L::S>>::empty()]) by { assert(pvs(w[0]@) =~= Seq::empty()); } }
      assert(wits(Seq::<Vec<Pat<L>>>::empty()) =~= Seq::<Seq<P<L::S>>>::empty());
      }
    }
  loop 0 it
    invariant it.seq() == or0, it.iter.obeys_prophetic_iter_laws(), it.iter.decrease() is Some,
      q.len() > 0, q.last() == P::<L::S>::Or(pvs(or0), idx), val@ == v0.drop_last(), q == vps(v0), t == vts(v0), ty == t.last(),
      lens(m.view(), v0.len()), wtm(m.view(), t), wts(q, t), depth < usize::MAX,
      or_inv(mm, q, t, it.index@, m.view(), wits(ret.witnesses@), a0, ac@),
  loop 1 it
    invariant it.iter.obeys_prophetic_iter_laws(), it.iter.decrease() is Some,
      is_con(q), q.last() == P::<L::S>::Con(con_pat.con, pvs(con_pat.args@), idx), val@ == v0.drop_last(), q == vps(v0), t == vts(v0), ty == t.last(),
      good_split::<L::S>(ty, con_pat.con, cons_of(mm), it.seq()), <L::S as Sem>::real_split() ==> forall|j: int| 0 <= j < it.seq().len() ==> !is_any::<L::S>(#[trigger] it.seq()[j]),
      mm == mtx.view(), lens(mm, v0.len()), wtm(mm, t), all_con(mm), wts(q, t), depth < usize::MAX,
      con_inv(mm, q, t, cons_of(mm), it.seq(), it.index@, wits(ret.witnesses@), a0, ac@),
  loop 2 it2
    invariant it2.iter.obeys_prophetic_iter_laws(), it2.iter.decrease() is Some, it2.seq().len() == mm.len(),
      forall|k: int| 0 <= k < mm.len() ==> (#[trigger] it2.seq()[k]).view() == mm[k],
      q.len() == v0.len(), v0.len() > 0, t.len() == v0.len(), ty == t.last(), lens(mm, v0.len()), wtm(mm, t), all_con(mm),
      good_part::<L::S>(ty, con_pat.con, cons_of(mm), con), lens(m.view(), (v0.len() - 1 + <L::S as Sem>::tys(ty, con).len()) as nat),
      sp_inv(mm, it2.index@, m.view(), t, cons_of(mm), con),
  loop 3 it3
    invariant new_len == n, it3.iter.obeys_prophetic_iter_laws(), it3.iter.decrease() is Some, it3.seq().len() == uw.len(),
      forall|k: int| 0 <= k < uw.len() ==> *(#[trigger] it3.seq()[k]) == uw[k],
      forall|k: int| 0 <= k < uw.len() ==> (#[trigger] uw[k])@.len() >= new_len,
      forall|k: int| 0 <= k < it3.index@ ==> pvs((*final(#[trigger] it3.seq()[k]))@) == wit(pvs(uw[k]@), new_len as nat, con, idx),
  at loop 0 before
    let ghost or0 = or_pats@;
    proof {
      assert(q.last() == pat.view()) by { assert(q.last() == v0.last().0.view()); }
      assert(wits(ret.witnesses@) =~= Seq::empty());
      assert(t.last() == v0.last().1);
      assert(m.view() == mm);
    }
  at loop 0 start
    let ghost (mk, bk, wk, pt, vo) = (m.view(), ac@, ret.witnesses@, pat, val);
    let ghost qk = alt(q, it.index@);
    proof {
      L::std_law();
      assert(subs(q.last())[it.index@] == pt.view());
      assert(qk == q.drop_last().push(pt.view()));
      assert(qk.drop_last() =~= q.drop_last());
      assert(wts(qk, t)) by {
        assert(wt(q[q.len() - 1], t[t.len() - 1])); lemma_wt_or(pvs(or0), idx, ty);
        assert(wt(pvs(or0)[it.index@], ty));
        assert forall|i: int| 0 <= i < qk.len() implies wt(#[trigger] qk[i], t[i]) by { if i < q.len() - 1 { assert(qk[i] == q[i]); assert(wt(q[i], t[i])); } }
      }
    }
  at call push 0 before
    let ghost vp = val;
    proof { lemma_cloned_pairs(vo, val); }
  at call useful 0 before
    let ghost val1 = val;
    proof {
      assert forall|i: int| #![trigger vps(val1@)[i]] #![trigger vts(val1@)[i]] 0 <= i < val1@.len() implies vps(val1@)[i] == qk[i] && vts(val1@)[i] == t[i] by {
        if i < v0.len() - 1 { assert(vps(vp@)[i] == vps(vo@)[i] && vts(vp@)[i] == vts(vo@)[i]); assert(q[i] == vps(v0)[i]); }
      }
      assert(vps(val1@) =~= qk); assert(vts(val1@) =~= t);
      assert forall|r: Seq<Pat<L>>| #![trigger pvs(r)] r.len() == val1@.len() && (forall|i: int| 0 <= i < r.len() ==> r[i].view() == (#[trigger] vps(val1@)[i])) implies pvs(r) == qk by { assert(pvs(r) =~= qk); }
      assert forall|c: Tpv<L>| #[trigger] vstd::std_specs::vec::vec_clone_trigger(val1, c) && c@.len() == val1@.len()
        && (forall|i: int| 0 <= i < c@.len() ==> #[trigger] vstd::pervasive::cloned(val1@[i], c@[i])) implies vps(c@) == qk && vts(c@) == t by { lemma_cloned_pairs(val1, c); }
    }
  at loop 0 end
    proof {
      assert forall|w: Seq<Vec<Pat<L>>>| ret.witnesses@ == #[trigger] wk.add(w) implies ret.witnesses@.skip(wk.len() as int) == w by { assert(wk.add(w).skip(wk.len() as int) =~= w); }
      lemma_or_step(mm, q, t, it.index@, mk, wits(wk), a0, bk, m.view(), wits(ret.witnesses@.skip(wk.len() as int)), ac@);
      assert(wits(ret.witnesses@) =~= wits(wk) + wits(ret.witnesses@.skip(wk.len() as int)));
    }
  at loop 0 after
    proof {
      b1 = ac@;
      assert(subs(q.last()).len() == or0.len());
      lemma_or_done(mm, q, t, m.view(), wits(ret.witnesses@), a0, ac@);
    }
  at loop 1 before
    proof {
      assert(q.last() == pat.view()) by { assert(q.last() == v0.last().0.view()); }
      assert(t.last() == v0.last().1);
      assert(wits(ret.witnesses@) =~= Seq::empty());
      assert forall|k: int| 0 <= k < mm.len() implies is_con(#[trigger] mm[k]) && *last_col.rest()[k] == top_con(mm[k]) && <L::S as Sem>::con_ok(ty, *last_col.rest()[k]) by {
        assert(wts(mm[k], t) && mm[k].len() == v0.len());
        assert(wt(mm[k][mm[k].len() - 1], t[t.len() - 1]));
      }
      assert(con_view::<L::S>(last_col.rest()) =~= cons_of(mm));
      assert(wt(q[q.len() - 1], t[t.len() - 1]));
    }
  at loop 1 start
    let ghost (bk, wk, vo) = (ac@, ret.witnesses@, val);
    let ghost n = <L::S as Sem>::tys(ty, con).len();
    proof {
      assert(good_part::<L::S>(ty, con_pat.con, cons_of(mm), it.seq()[it.index@]));
      lemma_sensible(q, t, con_pat.con, cons_of(mm), con);
    }
  at loop 2 before
    proof { lemma_sp_start(mm, t, cons_of(mm), con); }
  at loop 2 start
    let ghost (mj, rj) = (m.view(), mm[it2.index@]);
    proof {
      assert(is_con(rj));
      assert(row.view() == rj);
      assert(rj.drop_last() =~= pvs(row.pats@));
      assert(rj.last() == cpv(row.con_pat));
      assert(cons_of(mm)[it2.index@] == top_con(rj)); assert(wts(rj, t));
      lemma_sensible(rj, t, con_pat.con, cons_of(mm), con);
    }
  at call push 2 before
    let ghost pp = pvs(pats@);
    proof {
      assert(pp =~= sp_row(rj, ty, con)) by { assert(rj.len() == v0.len()); }
      assert(pats@.len() == pp.len());
    }
  at loop 2 end
    proof {
      lemma_sp_step(mm, it2.index@, mj, m.view(), t, con_pat.con, con);
    }
  at call x_extend 2 before
    let ghost vp = val;
    let ghost nw = new@;
    proof {
      lemma_cloned_pairs(vo, val);
      assert(vps(nw).len() == nw.len() && vts(nw).len() == n);
    }
  at call useful 1 before
    proof {
      assert(val@.len() == v0.len() - 1 + n);
      assert forall|i: int| #![trigger vps(val@)[i]] #![trigger vts(val@)[i]] 0 <= i < val@.len() implies vps(val@)[i] == sp_row(q, ty, con)[i] && vts(val@)[i] == sp_tys::<L::S>(t, con)[i] by {
        if i < v0.len() - 1 { assert(vps(vp@)[i] == vps(vo@)[i] && vts(vp@)[i] == vts(vo@)[i]); assert(q[i] == vps(v0)[i]); }
        else { assert(vps(val@)[i] == vps(nw)[i - (v0.len() - 1)] && vts(val@)[i] == vts(nw)[i - (v0.len() - 1)]); }
      }
      assert(sp_row(q, ty, con).len() == v0.len() - 1 + n);
      assert(vps(val@) =~= sp_row(q, ty, con));
      assert(vts(val@) =~= sp_tys::<L::S>(t, con));
      assert(val@.len() == v0.len() - 1 + n);
      lemma_sp_wt(q, t, con_pat.con, cons_of(mm), con);
    }
  at loop 3 before
    let ghost uw = u.witnesses@;
    proof {
      assert(new_len == n);
      assert forall|k: int| 0 <= k < uw.len() implies (#[trigger] uw[k])@.len() >= new_len by {
        assert(good_wit(m.view(), sp_row(q, ty, con), sp_tys::<L::S>(t, con), wits(uw)[k]));
        assert(wits(uw)[k].len() == sp_tys::<L::S>(t, con).len());
      }
    }
  at loop 3 start
    let ghost w0 = w@;
    proof { L::std_law(); assert(w0 == uw[it3.index@]@); }
  at loop 3 end
    proof {
      let k = w0.len() - new_len;
      assert(w@.len() == k + 1);
      assert(pvs(w0).skip(k).reverse() =~= pvs(w0.skip(k).reverse()));
      assert(w@[k].view() == P::<L::S>::Con(con, pvs(w0.skip(k).reverse()), idx));
      assert(pvs(w@) =~= wit(pvs(w0), new_len as nat, con, idx));
    }
  at loop 1 end
    proof {
      let ws3 = wits(ret.witnesses@.skip(wk.len() as int));
      assert(wits(ret.witnesses@) =~= wits(wk) + ws3);
      lemma_con_step(mm, q, t, cons_of(mm), it.seq(), it.index@, wits(wk), a0, bk, m.view(), wits(uw), ac@, ws3);
    }
  at loop 1 after
    proof {
      b1 = ac@;
      let ws = wits(ret.witnesses@);
      assert forall|rs: Seq<L::Con>| #[trigger] good_split::<L::S>(ty, con_pat.con, cons_of(mm), rs) && con_inv(mm, q, t, cons_of(mm), rs, rs.len() as int, ws, a0, ac@)
        implies almost(mm, q, t, a0, ac@, ws) by { lemma_con_done(mm, q, t, cons_of(mm), rs, ws, a0, ac@); }
    }
  at tail
    proof { lemma_final(mm, q, t, a0, b1, wits(ret.witnesses@), ac@); }
//@end
/// the same functions when the patterns need not make sense: what comes back is no result unless they do
pub mod strict { use super::*;
broadcast use {group_xstd, axiom_into_iter_vec};
//@splice crates/pattern-match/src/alg.rs
rewrite `.map` => `.x_map`
rewrite `.collect` => `.x_collect`
rewrite `.rev` => `.x_rev`
rewrite `.drain` => `.x_drain`
rewrite `.extend` => `.x_extend`
rewrite `.chain` => `.x_chain`
rewrite `.zip` => `.x_zip`
rewrite `.cloned` => `.x_cloned`
rewrite `std::iter::repeat` => `x_repeat`
rewrite `&mut u.witnesses` => `u.witnesses.iter_mut()`
rewrite `useful` => `useful_strict`
rewrite `specialize` => `specialize_strict`
rewrite `fn check` => `fn check_strict`
only fn check_strict
only fn useful_strict
only fn specialize_strict
fn specialize_strict
  ret r
  spec
    ensures r matches Ok(o) ==> match o {
      None => !is_any::<L::S>(pat.con) && !<L::S as Sem>::cov(pat.con, *val_con),
      Some(v) => (is_any::<L::S>(pat.con) || <L::S as Sem>::cov(pat.con, *val_con))
        && vps(v@) == spec_args(pvs(pat.args@), <L::S as Sem>::tys(*ty, *val_con).len()).reverse()
        && vts(v@) == <L::S as Sem>::tys(*ty, *val_con).reverse(),
    },
    r is Ok ==> sensible::<L::S>(pat.con, pvs(pat.args@), *ty, *val_con),
  at start
    broadcast use lemma_view;
    proof { L::std_law(); }
  closure 0 |$0: L::Ty| -> (o: (Pat<L>, L::Ty))
    ensures o.0.view() == p_any::<L::S>(), o.1 == $0,
  at call reverse 0 before
    let ghost ts = <L::S as Sem>::tys(*ty, *val_con);
    proof {
      assert forall|k: int| 0 <= k < ret@.len() implies (#[trigger] ret@[k]).0.view() == spec_args(pvs(pat.args@), ts.len())[k] by {
        if k < pat.args@.len() { assert(vstd::pervasive::cloned(pat.args@[k], ret@[k].0)); }
      }
    }
  at call reverse 0 after
    proof {
      assert(vps(ret@) =~= spec_args(pvs(pat.args@), ts.len()).reverse());
      assert(vts(ret@) =~= ts.reverse());
    }
  at tail
    proof {
      if is_any::<L::S>(pat.con) {
        let ts = <L::S as Sem>::tys(*ty, *val_con);
        assert(vps(ret->0@) =~= spec_args(pvs(pat.args@), ts.len()).reverse());
        assert(vts(ret->0@) =~= ts.reverse());
      }
    }
fn check_strict
  ret r
  spec
    requires <L::S as Sem>::strict(),
    ensures r is Ok && solids(pvs(pats@)) ==> wt_all(pvs(pats@), ty),
  at start
    broadcast use {lemma_view, vstd::set::group_set_lemmas};
    let ghost (ps0, ty0, ps) = (pats@, ty, pvs(pats@));
    proof { L::std_law(); }
  loop 0 it
    invariant it.seq() == pats@.as_ref(), it.iter.obeys_prophetic_iter_laws(), it.iter.decrease() is Some, pats@ == ps0,
  loop 1 it
    invariant it.seq() == ps0, it.iter.obeys_prophetic_iter_laws(), it.iter.decrease() is Some, ps == pvs(ps0), lens(mtx.view(), 1), <L::S as Sem>::strict(),
      solids(ps) ==> forall|j: int| 0 <= j < it.index@ ==> wt(#[trigger] ps[j], ty),
  at loop 1 start
    let ghost (k, pt) = (it.index@, pat.view());
    proof {
      L::std_law();
      assert(ps[k] == pt);
      assert forall|v: Tpv<L>| v@.len() == 1 && v@[0].0.view() == pt && v@[0].1 == ty implies #[trigger] vps(v@) == seq![pt] && vts(v@) == seq![ty] by {
        assert(vps(v@) =~= seq![pt]); assert(vts(v@) =~= seq![ty]);
      }
      assert(seq![pt][0] == pt && seq![ty][0] == ty);
      assert(solids(ps) ==> solids(seq![pt]));
      assert(wts(seq![pt], seq![ty]) ==> wt(pt, ty)) by { if wts(seq![pt], seq![ty]) { assert(wt(seq![pt][0], seq![ty][0])); } }
    }
  closure 0 |$0: Vec<Pat<L>>| -> (o: Pat<L>)
    requires $0@.len() == 1,
    ensures o == $0@[0],
fn useful_strict
  attr #[verifier::exec_allows_no_decreases_clause]
  attr #[verifier::rlimit(60)]
  ret r
  spec
    requires lens(mtx.view(), val@.len()), <L::S as Sem>::strict(),
    ensures r matches Ok(u) ==> (forall|k: int| 0 <= k < u.witnesses@.len() ==> (#[trigger] u.witnesses@[k])@.len() == val@.len())
      && (solids(vps(val@)) ==> wts(vps(val@), vts(val@))),
  closure 0 |$0: (Pat<L>, L::Ty)| -> (o: Pat<L>)
    ensures o == $0.0,
  closure 1 |$0: &NonEmptyRow<L>| -> (o: &L::Con)
    ensures *o == $0.con_pat.con,
  closure 2 |$0: (Pat<L>, L::Ty)| -> (o: Pat<L>)
    ensures o == $0.0,
  at start
    broadcast use {lemma_view, lemma_cloned, lemma_cloned_pairs};
    let ghost (v0, mm, q, t) = (val@, mtx.view(), vps(val@), vts(val@));
    proof {
      L::std_law(); <L::S as Sem>::law();
      assume(depth < usize::MAX);
      assert(val.len() == val@.len());
      if mm.len() > 0 { assert(mm[0].len() == val@.len()); }
    }
  loop 0 it
    invariant it.seq() == or0, it.iter.obeys_prophetic_iter_laws(), it.iter.decrease() is Some, <L::S as Sem>::strict(),
      q.len() > 0, q.last() == P::<L::S>::Or(pvs(or0), idx), val@ == v0.drop_last(), q == vps(v0), t == vts(v0), ty == t.last(),
      lens(m.view(), v0.len()), depth < usize::MAX,
      forall|k: int| 0 <= k < ret.witnesses@.len() ==> (#[trigger] ret.witnesses@[k])@.len() == v0.len(),
      solids(q) ==> forall|j: int| 0 <= j < it.index@ ==> wts(#[trigger] alt(q, j), t),
  loop 1 it
    invariant it.iter.obeys_prophetic_iter_laws(), it.iter.decrease() is Some, <L::S as Sem>::strict(),
      is_con(q), q.last() == P::<L::S>::Con(con_pat.con, pvs(con_pat.args@), idx), val@ == v0.drop_last(), q == vps(v0), t == vts(v0), ty == t.last(),
      good_split::<L::S>(ty, con_pat.con, cons_of(mm), it.seq()),
      mm == mtx.view(), lens(mm, v0.len()), all_con(mm), depth < usize::MAX,
      forall|k: int| 0 <= k < ret.witnesses@.len() ==> (#[trigger] ret.witnesses@[k])@.len() == v0.len(),
      forall|j: int| 0 <= j < it.index@ ==> sensed(q, t, #[trigger] it.seq()[j]),
  loop 2 it2
    invariant it2.iter.obeys_prophetic_iter_laws(), it2.iter.decrease() is Some, it2.seq().len() == mm.len(),
      forall|k: int| 0 <= k < mm.len() ==> (#[trigger] it2.seq()[k]).view() == mm[k],
      v0.len() > 0, lens(mm, v0.len()), all_con(mm), lens(m.view(), (v0.len() - 1 + <L::S as Sem>::tys(ty, con).len()) as nat),
  loop 3 it3
    invariant new_len == n, it3.iter.obeys_prophetic_iter_laws(), it3.iter.decrease() is Some, it3.seq().len() == uw.len(),
      forall|k: int| 0 <= k < uw.len() ==> *(#[trigger] it3.seq()[k]) == uw[k],
      forall|k: int| 0 <= k < uw.len() ==> (#[trigger] uw[k])@.len() == v0.len() - 1 + new_len, v0.len() > 0,
      forall|k: int| 0 <= k < it3.index@ ==> (*final(#[trigger] it3.seq()[k]))@.len() == v0.len(),
  at loop 0 before
    let ghost or0 = or_pats@;
    proof {
      assert(q.last() == pat.view()) by { assert(q.last() == v0.last().0.view()); }
      assert(t.last() == v0.last().1);
    }
  at loop 0 start
    let ghost (pt, vo) = (pat, val);
    let ghost qk = alt(q, it.index@);
    proof {
      L::std_law();
      assert(subs(q.last())[it.index@] == pt.view());
      assert(qk == q.drop_last().push(pt.view()));
      assert(qk.drop_last() =~= q.drop_last());
      if solids(q) { lemma_solid_alt(q, it.index@); }
    }
  at call push 0 before
    let ghost vp = val;
    proof { lemma_cloned_pairs(vo, val); }
  at call useful_strict 0 before
    let ghost val1 = val;
    proof {
      assert forall|i: int| #![trigger vps(val1@)[i]] #![trigger vts(val1@)[i]] 0 <= i < val1@.len() implies vps(val1@)[i] == qk[i] && vts(val1@)[i] == t[i] by {
        if i < v0.len() - 1 { assert(vps(vp@)[i] == vps(vo@)[i] && vts(vp@)[i] == vts(vo@)[i]); assert(q[i] == vps(v0)[i]); }
      }
      assert(vps(val1@) =~= qk); assert(vts(val1@) =~= t);
      assert forall|c: Tpv<L>| #[trigger] vstd::std_specs::vec::vec_clone_trigger(val1, c) && c@.len() == val1@.len()
        && (forall|i: int| 0 <= i < c@.len() ==> #[trigger] vstd::pervasive::cloned(val1@[i], c@[i])) implies vps(c@) == qk && vts(c@) == t by { lemma_cloned_pairs(val1, c); }
    }
  at loop 0 after
    proof {
      assert(subs(q.last()).len() == or0.len());
      if solids(q) { lemma_or_sense(q, t); }
    }
  at loop 1 before
    proof {
      assert(q.last() == pat.view()) by { assert(q.last() == v0.last().0.view()); }
      assert(t.last() == v0.last().1);
      assert forall|k: int| 0 <= k < mm.len() implies is_con(#[trigger] mm[k]) && *last_col.rest()[k] == top_con(mm[k]) by {
        assert(mm[k].len() == v0.len());
      }
      assert(con_view::<L::S>(last_col.rest()) =~= cons_of(mm));
    }
  at loop 1 start
    let ghost (wk, vo) = (ret.witnesses@, val);
    let ghost n = <L::S as Sem>::tys(ty, con).len();
    proof {
      assert(good_part::<L::S>(ty, con_pat.con, cons_of(mm), it.seq()[it.index@]));
    }
  at loop 2 start
    let ghost rj = mm[it2.index@];
    proof {
      assert(is_con(rj));
      assert(row.view() == rj);
      assert(rj.drop_last() =~= pvs(row.pats@));
      assert(rj.last() == cpv(row.con_pat));
    }
  at call push 2 before
    let ghost pp = pvs(pats@);
    proof {
      assert(pp =~= sp_row(rj, ty, con)) by { assert(rj.len() == v0.len()); }
      assert(pats@.len() == pp.len());
    }
  at call x_extend 2 before
    let ghost vp = val;
    let ghost nw = new@;
    proof {
      lemma_cloned_pairs(vo, val);
      assert(vps(nw).len() == nw.len() && vts(nw).len() == n);
    }
  at call useful_strict 1 before
    proof {
      assert(val@.len() == v0.len() - 1 + n);
      assert forall|i: int| #![trigger vps(val@)[i]] #![trigger vts(val@)[i]] 0 <= i < val@.len() implies vps(val@)[i] == sp_row(q, ty, con)[i] && vts(val@)[i] == sp_tys::<L::S>(t, con)[i] by {
        if i < v0.len() - 1 { assert(vps(vp@)[i] == vps(vo@)[i] && vts(vp@)[i] == vts(vo@)[i]); assert(q[i] == vps(v0)[i]); }
        else { assert(vps(val@)[i] == vps(nw)[i - (v0.len() - 1)] && vts(val@)[i] == vts(nw)[i - (v0.len() - 1)]); }
      }
      assert(vps(val@) =~= sp_row(q, ty, con));
      assert(vts(val@) =~= sp_tys::<L::S>(t, con));
      if solids(q) { lemma_solid_sp(q, ty, con); }
    }
  at loop 3 before
    let ghost uw = u.witnesses@;
    proof { assert(new_len == n); }
  at loop 3 start
    let ghost w0 = w@;
    proof { L::std_law(); assert(w0 == uw[it3.index@]@); }
  at loop 1 end
    proof { assert(sensed(q, t, it.seq()[it.index@])); }
  at loop 1 after
    proof {
      assert forall|rs: Seq<L::Con>| #[trigger] good_split::<L::S>(ty, con_pat.con, cons_of(mm), rs) && rs.len() > 0 && solids(q)
        && (forall|j: int| 0 <= j < rs.len() ==> sensed(q, t, #[trigger] rs[j])) implies wts(q, t) by { lemma_con_sense(q, t, cons_of(mm), rs); }
    }
//@end
}
}
// ---------------------------------------------------------------- a language for which all this holds
/// truth values and pairs of them: shows that what is asked of a `Lang` can be had
mod demo { use super::*; use super::types::*;
#[derive(Clone, Copy)]
pub enum Con { Any, True, False, Pair }
#[verifier::external]
impl Debug for Con { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { unimplemented!() } }
#[derive(Clone, Copy)]
pub enum Ty { Bool, Pair }
#[verifier::external]
impl Debug for Ty { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { unimplemented!() } }
pub struct Bools;
pub open spec fn vcon(ty: Ty, c: Con) -> bool { match ty { Ty::Bool => c == Con::True || c == Con::False, Ty::Pair => c == Con::Pair } }
impl Sem for Bools {
  type C = Con; type T = Ty; type I = u32;
  open spec fn any_c() -> Con { Con::Any }
  open spec fn cov(l: Con, r: Con) -> bool { l == Con::Any || l == r }
  open spec fn vcon(ty: Ty, vc: Con) -> bool { vcon(ty, vc) }
  open spec fn has(c: Con, vc: Con) -> bool { c == Con::Any || c == vc }
  open spec fn tys(ty: Ty, c: Con) -> Seq<Ty> { if c == Con::Pair { seq![Ty::Bool, Ty::Bool] } else { Seq::empty() } }
  open spec fn con_ok(ty: Ty, c: Con) -> bool { c == Con::Any || vcon(ty, c) }
  open spec fn real_split() -> bool { true }
  open spec fn total() -> bool { true }
  open spec fn strict() -> bool { false }
  proof fn law() {}
}
pub axiom fn axiom_fx() ensures builds_valid_hashers::<FxBuildHasher>();
proof fn lemma_part(ty: Ty, p: Con, cs: Seq<Con>, c: Con)
  requires vcon(ty, c), Bools::cov(p, c),
  ensures good_part::<Bools>(ty, p, cs, c), part::<Bools>(ty, cs, c, c),
{
  assert(part::<Bools>(ty, cs, c, c));
}
impl Lang for Bools {
  type S = Bools;
  proof fn std_law() { axiom_fx(); }
  type Cx = ();
  type PatIdx = u32;
  type Con = Con;
  type Ty = Ty;
  fn any() -> Con { Con::Any }
  fn split<'a, I>(cx: &mut (), ty: &Ty, con: &Con, cons: I, depth: usize) -> (r: Result<Vec<Con>>) where Con: 'a, I: Iterator<Item = &'a Con> {
    let ghost cs = con_view::<Bools>(cons.remaining());
    proof {
      assert forall|c: Con| vcon(*ty, c) && Bools::cov(*con, c) implies #[trigger] good_part::<Bools>(*ty, *con, cs, c) && part::<Bools>(*ty, cs, c, c) by { lemma_part(*ty, *con, cs, c); }
    }
    let v = match con {
      Con::Any => match ty { Ty::Bool => vec![Con::True, Con::False], Ty::Pair => vec![Con::Pair] },
      _ => vec![*con],
    };
    proof {
      if Bools::con_ok(*ty, *con) {
        assert forall|vc: Con| #[trigger] Bools::vcon(*ty, vc) && Bools::has(*con, vc) implies exists|j: int| 0 <= j < v@.len() && part::<Bools>(*ty, cs, #[trigger] v@[j], vc) by {
          assert(good_part::<Bools>(*ty, *con, cs, vc));
          if *con is Any && *ty is Bool { let j: int = if vc is True { 0 } else { 1 }; assert(v@[j] == vc); } else { assert(v@[0] == vc); }
        }
      }
    }
    Ok(v)
  }
  fn get_arg_tys(cx: &mut (), ty: &Ty, con: &Con) -> Result<Vec<Ty>> {
    let v = match con { Con::Pair => vec![Ty::Bool, Ty::Bool], _ => vec![] };
    proof { assert(v@ =~= Bools::tys(*ty, *con)); }
    Ok(v)
  }
  fn covers(lhs: &Con, rhs: &Con) -> bool {
    match (lhs, rhs) { (Con::Any, _) => true, (Con::True, Con::True) => true, (Con::False, Con::False) => true, (Con::Pair, Con::Pair) => true, _ => false }
  }
}
}
/// the same, with an error for what does not go together: shows that a `strict` language can be had
mod demo_strict { use super::*; use super::types::*; use super::demo::{Con, Ty, axiom_fx};
pub struct Stricts;
pub open spec fn vcon(ty: Ty, c: Con) -> bool { match ty { Ty::Bool => c == Con::True || c == Con::False, Ty::Pair => c == Con::Pair } }
impl Sem for Stricts {
  type C = Con; type T = Ty; type I = u32;
  open spec fn any_c() -> Con { Con::Any }
  open spec fn cov(l: Con, r: Con) -> bool { l == Con::Any || l == r }
  open spec fn vcon(ty: Ty, vc: Con) -> bool { vcon(ty, vc) }
  open spec fn has(c: Con, vc: Con) -> bool { c == Con::Any || c == vc }
  open spec fn tys(ty: Ty, c: Con) -> Seq<Ty> { if c == Con::Pair { seq![Ty::Bool, Ty::Bool] } else { Seq::empty() } }
  open spec fn con_ok(ty: Ty, c: Con) -> bool { true }
  open spec fn real_split() -> bool { true }
  open spec fn total() -> bool { false }
  open spec fn strict() -> bool { true }
  proof fn law() {}
}
proof fn lemma_part(ty: Ty, p: Con, cs: Seq<Con>, c: Con)
  requires vcon(ty, c), Stricts::cov(p, c),
  ensures good_part::<Stricts>(ty, p, cs, c), part::<Stricts>(ty, cs, c, c),
{
  assert(part::<Stricts>(ty, cs, c, c));
}
impl Lang for Stricts {
  type S = Stricts;
  proof fn std_law() { axiom_fx(); }
  type Cx = ();
  type PatIdx = u32;
  type Con = Con;
  type Ty = Ty;
  fn any() -> Con { Con::Any }
  fn split<'a, I>(cx: &mut (), ty: &Ty, con: &Con, cons: I, depth: usize) -> (r: Result<Vec<Con>>) where Con: 'a, I: Iterator<Item = &'a Con> {
    let ghost cs = con_view::<Stricts>(cons.remaining());
    proof {
      assert forall|c: Con| vcon(*ty, c) && Stricts::cov(*con, c) implies #[trigger] good_part::<Stricts>(*ty, *con, cs, c) && part::<Stricts>(*ty, cs, c, c) by { lemma_part(*ty, *con, cs, c); }
    }
    match (ty, con) {
      (_, Con::Any) | (Ty::Bool, Con::True) | (Ty::Bool, Con::False) | (Ty::Pair, Con::Pair) => {}
      _ => return Err(CheckError("not of the type")),
    }
    let v = match con {
      Con::Any => match ty { Ty::Bool => vec![Con::True, Con::False], Ty::Pair => vec![Con::Pair] },
      _ => vec![*con],
    };
    proof {
      {
        assert forall|vc: Con| #[trigger] Stricts::vcon(*ty, vc) && Stricts::has(*con, vc) implies exists|j: int| 0 <= j < v@.len() && part::<Stricts>(*ty, cs, #[trigger] v@[j], vc) by {
          assert(good_part::<Stricts>(*ty, *con, cs, vc));
          if *con is Any && *ty is Bool { let j: int = if vc is True { 0 } else { 1 }; assert(v@[j] == vc); } else { assert(v@[0] == vc); }
        }
      }
    }
    Ok(v)
  }
  fn get_arg_tys(cx: &mut (), ty: &Ty, con: &Con) -> Result<Vec<Ty>> {
    let v = match con { Con::Pair => vec![Ty::Bool, Ty::Bool], _ => vec![] };
    proof { assert(v@ =~= Stricts::tys(*ty, *con)); }
    Ok(v)
  }
  fn covers(lhs: &Con, rhs: &Con) -> bool {
    match (lhs, rhs) { (Con::Any, _) => true, (Con::True, Con::True) => true, (Con::False, Con::False) => true, (Con::Pair, Con::Pair) => true, _ => false }
  }
}
}
fn main() {}
} // verus!
