#![allow(unused_imports, dead_code, unused_macros)]
use vstd::prelude::*;
use vstd::std_specs::iter::IteratorSpec;
//@include std.inc
use xstd::*;
verus! {
//@canary
global size_of usize == 8;

//@include utf8.inc
//@include textsize.inc

// ---------------------------------------------------------------- what the sink was told
pub enum In<K, E> { Enter(K), Tok(K, Seq<char>), Exit, Err(E) }
/// where the `n`th event lies in the text
pub open spec fn pos<K, E>(h: Seq<In<K, E>>, n: int) -> nat decreases n {
  if n <= 0 || n > h.len() { 0 } else { pos(h, n - 1) + match h[n - 1] { In::Tok(_, t) => size(t), _ => 0 } }
}
pub open spec fn text<K, E>(h: Seq<In<K, E>>) -> Seq<char> decreases h.len() {
  if h.len() == 0 { Seq::empty() } else { match h.last() { In::Tok(_, t) => text(h.drop_last()) + t, _ => text(h.drop_last()) } }
}
pub open spec fn errs<K, E>(h: Seq<In<K, E>>) -> Seq<int> decreases h.len() {
  if h.len() == 0 { Seq::empty() } else { match h.last() { In::Err(_) => errs(h.drop_last()).push(h.len() - 1), _ => errs(h.drop_last()) } }
}
pub open spec fn solid<K: Triviable, E>(e: In<K, E>) -> bool { e matches In::Tok(k, _) && !k.trivia() }
pub open spec fn is_tok<K, E>(e: In<K, E>) -> bool { e matches In::Tok(_, _) }
/// the first token from `i` on that is not trivia; the last token
pub open spec fn next_solid<K: Triviable, E>(h: Seq<In<K, E>>, i: int) -> Option<int> decreases h.len() - i {
  if i < 0 || i >= h.len() { None } else if solid(h[i]) { Some(i) } else { next_solid(h, i + 1) }
}
pub open spec fn last_tok<K, E>(h: Seq<In<K, E>>, n: int) -> Option<int> decreases n {
  if n <= 0 || n > h.len() { None } else if is_tok(h[n - 1]) { Some(n - 1) } else { last_tok(h, n - 1) }
}
/// the place of the token `j`
pub open spec fn place<K, E>(h: Seq<In<K, E>>, j: Option<int>) -> (nat, nat, Option<K>) {
  match j { Some(j) => (pos(h, j), pos(h, j + 1), Some(h[j]->Tok_0)), None => (0, 0, None) }
}
pub open spec fn small<K, E>(h: Seq<In<K, E>>) -> bool { pos(h, h.len() as int) <= u32::MAX }

pub proof fn lemma_push<K: Triviable, E>(h: Seq<In<K, E>>, e: In<K, E>, i: int)
  requires 0 <= i <= h.len(),
  ensures
    h.push(e).drop_last() == h,
    pos(h.push(e), i) == pos(h, i),
    last_tok(h.push(e), i) == last_tok(h, i),
    next_solid(h.push(e), i) == (match next_solid(h, i) { Some(j) => Some(j), None => if solid(e) { Some(h.len() as int) } else { None } }),
    next_solid(h, i) matches Some(j) ==> i <= j < h.len() && solid(h[j]),
  decreases h.len() - i
{
  assert(h.push(e).drop_last() =~= h);
  lemma_back(h, e, i);
  let g = h.push(e);
  if i < h.len() { assert(g[i] == h[i]); lemma_push(h, e, i + 1); }
  else { assert(g[i] == e); assert(next_solid(g, i + 1) is None); }
}
pub proof fn lemma_back<K: Triviable, E>(h: Seq<In<K, E>>, e: In<K, E>, n: int)
  requires n <= h.len(),
  ensures pos(h.push(e), n) == pos(h, n), last_tok(h.push(e), n) == last_tok(h, n), last_tok(h, n) matches Some(j) ==> 0 <= j < n && is_tok(h[j]),
  decreases n
{ if n > 0 { lemma_back(h, e, n - 1); assert(h.push(e)[n - 1] == h[n - 1]); } }
pub proof fn lemma_errs<K: Triviable, E>(h: Seq<In<K, E>>)
  ensures forall|k: int| 0 <= k < errs(h).len() ==> 0 <= (#[trigger] errs(h)[k]) < h.len() && h[errs(h)[k]] is Err,
  decreases h.len()
{
  if h.len() > 0 {
    let p = h.drop_last(); lemma_errs(p);
    assert forall|k: int| 0 <= k < errs(h).len() implies 0 <= (#[trigger] errs(h)[k]) < h.len() && h[errs(h)[k]] is Err by {
      if k < errs(p).len() { assert(errs(h)[k] == errs(p)[k]); assert(p[errs(p)[k]] == h[errs(p)[k]]); }
    }
  }
}
/// places do not move
pub proof fn lemma_place<K: Triviable, E>(h: Seq<In<K, E>>, e: In<K, E>, j: Option<int>)
  requires j matches Some(j) ==> 0 <= j < h.len(),
  ensures place(h.push(e), j) == place(h, j),
{ if let Some(j) = j { lemma_back(h, e, j); lemma_back(h, e, j + 1); assert(h.push(e)[j] == h[j]); } }

pub open spec fn lawful_clone<K: Clone>() -> bool {
  (forall|a: K, b: K| #[trigger] vstd::pervasive::cloned(a, b) ==> a == b) && forall|a: K, b: K| #[trigger] call_ensures(K::clone, (&a,), b) ==> a == b
}
/// `std::mem::take`
#[verifier::external_body]
pub fn x_take<T>(v: &mut Vec<T>) -> (r: Vec<T>)
  ensures r == *old(v), final(v)@ == Seq::<T>::empty()
{ unimplemented!() }
pub trait VecShim<T>: Sized {
  spec fn vv(&self) -> Seq<T>;
  /// `Vec::into_iter`
  fn x_into_iter(self) -> (r: XIter<T>) ensures r.rest() == self.vv();
  /// `Extend::extend`
  fn x_extend<I: Iterator<Item = T>>(&mut self, i: I)
    requires i.obeys_prophetic_iter_laws(), i.decrease() is Some,
    ensures final(self).vv() == old(self).vv() + i.remaining();
}
impl<T> VecShim<T> for Vec<T> {
  open spec fn vv(&self) -> Seq<T> { self@ }
  #[verifier::external_body]
  fn x_into_iter(self) -> (r: XIter<T>) { unimplemented!() }
  #[verifier::external_body]
  fn x_extend<I: Iterator<Item = T>>(&mut self, i: I) { unimplemented!() }
}
pub trait MapShim: Iterator + Sized {
  /// `Iterator::map`, used up on the spot
  #[verifier::external_body]
  fn x_map<B, F: FnMut(Self::Item) -> B>(self, f: F) -> (r: XIter<B>)
    requires self.obeys_prophetic_iter_laws(), self.decrease() is Some,
      forall|k: int| 0 <= k < self.remaining().len() ==> call_requires(f, (#[trigger] self.remaining()[k],)),
    ensures r.rest().len() == self.remaining().len(),
      forall|k: int| 0 <= k < r.rest().len() ==> call_ensures(f, (self.remaining()[k],), #[trigger] r.rest()[k]),
  { unimplemented!() }
}
impl<I: Iterator> MapShim for I {}
/// `Into`, for the types below
pub trait XInto<T>: Sized {
  spec fn into_is(self, t: T) -> bool;
  fn x_into(self) -> (r: T) ensures self.into_is(r);
}

/// rowan (a dependency; contracts assumed)
pub mod rowan { use super::*;
  pub use super::text_size_of::{TextRange, TextSize};
  impl XInto<TextSize> for u32 {
    open spec fn into_is(self, t: TextSize) -> bool { t.raw == self }
    fn x_into(self) -> (r: TextSize) { TextSize::from(self) }
  }
  #[verifier::external_body]
  pub struct SyntaxKind { _p: u16 }
  pub trait Language: Sized {}
  /// what a builder was told
  pub enum Op { Start(SyntaxKind), Tok(SyntaxKind, Seq<char>), Finish }
  #[verifier::external_body]
  pub struct GreenNode { _p: u8 }
  impl GreenNode { pub uninterp spec fn ops(&self) -> Seq<Op>; }
  #[verifier::external_body]
  pub struct GreenNodeBuilder<'c> { _p: &'c u8 }
  impl<'c> GreenNodeBuilder<'c> {
    pub uninterp spec fn ops(&self) -> Seq<Op>;
    #[verifier::external_body]
    pub fn default() -> (r: Self) ensures r.ops() == Seq::<Op>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn start_node(&mut self, kind: SyntaxKind) ensures final(self).ops() == old(self).ops().push(Op::Start(kind)) { unimplemented!() }
    #[verifier::external_body]
    pub fn token(&mut self, kind: SyntaxKind, text: &str) ensures final(self).ops() == old(self).ops().push(Op::Tok(kind, text@)) { unimplemented!() }
    #[verifier::external_body]
    pub fn finish_node(&mut self) ensures final(self).ops() == old(self).ops().push(Op::Finish) { unimplemented!() }
    #[verifier::external_body]
    pub fn finish(self) -> (r: GreenNode) ensures r.ops() == self.ops() { unimplemented!() }
  }
  #[verifier::external_body]
  #[verifier::reject_recursive_types(L)]
  pub struct SyntaxNode<L> { l: L }
  impl<L: Language> SyntaxNode<L> {
    pub uninterp spec fn ops(&self) -> Seq<Op>;
    #[verifier::external_body]
    pub fn new_root(g: GreenNode) -> (r: Self) ensures r.ops() == g.ops() { unimplemented!() }
  }
}
use rowan::{Op, SyntaxKind};
/// the builder was told what the sink was
pub open spec fn built<K: XInto<SyntaxKind>, E>(h: Seq<In<K, E>>, ops: Seq<Op>) -> bool decreases h.len() {
  if h.len() == 0 { ops.len() == 0 } else {
    match h.last() {
      In::Enter(k) => ops.len() > 0 && (ops.last() matches Op::Start(s) && k.into_is(s)) && built(h.drop_last(), ops.drop_last()),
      In::Tok(k, t) => ops.len() > 0 && (ops.last() matches Op::Tok(s, u) && k.into_is(s) && u == t) && built(h.drop_last(), ops.drop_last()),
      In::Exit => ops.len() > 0 && ops.last() is Finish && built(h.drop_last(), ops.drop_last()),
      In::Err(_) => built(h.drop_last(), ops),
    }
  }
}
pub open spec fn ops_text(ops: Seq<Op>) -> Seq<char> decreases ops.len() {
  if ops.len() == 0 { Seq::empty() } else { match ops.last() { Op::Tok(_, t) => ops_text(ops.drop_last()) + t, _ => ops_text(ops.drop_last()) } }
}
/// the text of the tree is that of the tokens
pub proof fn lemma_text<K: XInto<SyntaxKind>, E>(h: Seq<In<K, E>>, ops: Seq<Op>)
  requires built(h, ops),
  ensures ops_text(ops) == text(h),
  decreases h.len()
{
  if h.len() > 0 { match h.last() { In::Err(_) => { lemma_text(h.drop_last(), ops); } _ => { lemma_text(h.drop_last(), ops.drop_last()); } } }
}

pub mod token { use super::*;
//@splice crates/token/src/lib.rs
derive Token Clone Copy
attr struct Token #[verifier::allow(autoderive_clone_without_spec)]
inject trait Triviable
  spec fn trivia(&self) -> bool;
fn trait Triviable::is_trivia
  ret r
  spec
    ensures r == self.trivia(),
//@end
}
use token::Triviable;
pub mod sink { use super::*; use super::token::*; use super::rowan::*;
pub open spec fn err_is<K: Triviable, E>(h: Seq<In<K, E>>, r: Error<K, E>, i: int, j: Option<int>) -> bool {
  0 <= i < h.len() && h[i] == In::<K, E>::Err(r.inner) && place(h, j) == (r.range.lo() as nat, r.range.hi() as nat, r.kind)
}
/// where the error told by event `i` belongs
pub open spec fn home<K: Triviable, E>(h: Seq<In<K, E>>, i: int) -> Option<int> {
  match next_solid(h, i) { Some(j) => Some(j), None => last_tok(h, h.len() as int) }
}
pub open spec fn all_placed<K: Triviable, E>(h: Seq<In<K, E>>, es: Seq<Error<K, E>>) -> bool {
  es.len() == errs(h).len() && forall|k: int| 0 <= k < es.len() ==> err_is(h, #[trigger] es[k], errs(h)[k], home(h, errs(h)[k]))
}
pub open spec fn done<K: Triviable, E>(h: Seq<In<K, E>>, es: Seq<Error<K, E>>, k: int) -> bool {
  next_solid(h, errs(h)[k]) is Some && err_is(h, es[k], errs(h)[k], next_solid(h, errs(h)[k]))
}
pub open spec fn open<K: Triviable, E>(h: Seq<In<K, E>>, xs: Seq<E>, n: int, k: int) -> bool {
  next_solid(h, errs(h)[n + k]) is None && h[errs(h)[n + k]] == In::<K, E>::Err(xs[k])
}
impl<K: XInto<SyntaxKind> + Triviable, E> RowanSink<K, E> {
  /// the sink after `h`
  pub open spec fn after(&self, h: Seq<In<K, E>>) -> bool {
    &&& built(h, self.builder.ops())
    &&& place(h, last_tok(h, h.len() as int)) == (self.cur.0.lo() as nat, self.cur.0.hi() as nat, self.cur.1)
    &&& pos(h, h.len() as int) == self.cur.0.hi()
    &&& self.waits(h)
  }
  pub open spec fn waits(&self, h: Seq<In<K, E>>) -> bool {
    let n = self.errors@.len() as int;
    &&& n + self.no_range@.len() == errs(h).len()
    &&& forall|k: int| 0 <= k < n ==> #[trigger] done(h, self.errors@, k)
    &&& forall|k: int| 0 <= k < self.no_range@.len() ==> #[trigger] open(h, self.no_range@, n, k)
  }
}
/// the `k`th error waits no more, or waits on
pub proof fn step<K: XInto<SyntaxKind> + Triviable, E>(a: RowanSink<K, E>, h: Seq<In<K, E>>, e: In<K, E>)
  requires a.after(h),
  ensures ({ let g = h.push(e); g.drop_last() == h && g.len() == h.len() + 1 && g[h.len() as int] == e
    && pos(g, h.len() as int) == pos(h, h.len() as int)
    && last_tok(g, h.len() as int) == last_tok(h, h.len() as int)
    && place(g, last_tok(h, h.len() as int)) == place(h, last_tok(h, h.len() as int))
    && forall|k: int| 0 <= k < errs(h).len() ==> stays(h, g, e, #[trigger] errs(h)[k]) })
{
  let g = h.push(e); lemma_push(h, e, h.len() as int); lemma_back(h, e, h.len() as int); lemma_place(h, e, last_tok(h, h.len() as int));
  lemma_errs(h);
  assert forall|k: int| 0 <= k < errs(h).len() implies stays(h, g, e, #[trigger] errs(h)[k]) by {
    lemma_push(h, e, errs(h)[k]); lemma_place(h, e, next_solid(h, errs(h)[k]));
  }
}
pub proof fn waits_on<K: XInto<SyntaxKind> + Triviable, E>(a: RowanSink<K, E>, b: RowanSink<K, E>, h: Seq<In<K, E>>, e: In<K, E>)
  requires a.after(h),
    match e {
      In::Err(x) => b.errors@ == a.errors@ && b.no_range@ == a.no_range@.push(x),
      _ => if solid(e) { b.no_range@.len() == 0 && b.errors@ == a.errors@ + Seq::new(a.no_range@.len(), |i: int| Error { range: b.cur.0, kind: b.cur.1, inner: a.no_range@[i] })
          && place(h.push(e), Some(h.len() as int)) == (b.cur.0.lo() as nat, b.cur.0.hi() as nat, b.cur.1) }
        else { b.errors@ == a.errors@ && b.no_range@ == a.no_range@ },
    },
  ensures b.waits(h.push(e)),
{
  let g = h.push(e); let n = a.errors@.len() as int; let m = b.errors@.len() as int;
  step(a, h, e); lemma_push(h, e, h.len() as int); lemma_errs(h);
  assert(errs(g) == if e is Err { errs(h).push(h.len() as int) } else { errs(h) });
  assert forall|k: int| 0 <= k < m implies #[trigger] done(g, b.errors@, k) by {
    assert(stays(h, g, e, errs(h)[k]));
    if k < n { assert(b.errors@[k] == a.errors@[k]); assert(done(h, a.errors@, k)); }
    else { assert(open(h, a.no_range@, n, k - n)); }
  }
  assert forall|k: int| 0 <= k < b.no_range@.len() implies #[trigger] open(g, b.no_range@, m, k) by {
    if m + k < errs(h).len() {
      assert(stays(h, g, e, errs(h)[m + k])); assert(a.no_range@[k] == b.no_range@[k]); assert(open(h, a.no_range@, n, k));
    } else { assert(errs(g)[m + k] == h.len()); assert(next_solid(g, h.len() as int + 1) is None); }
  }
}
pub proof fn all_home<K: XInto<SyntaxKind> + Triviable, E>(a: RowanSink<K, E>, h: Seq<In<K, E>>, es: Seq<Error<K, E>>)
  requires a.after(h), es == a.errors@ + Seq::new(a.no_range@.len(), |i: int| Error { range: a.cur.0, kind: a.cur.1, inner: a.no_range@[i] }),
  ensures all_placed(h, es),
{
  let n = a.errors@.len() as int; lemma_errs(h);
  assert forall|k: int| 0 <= k < es.len() implies err_is(h, #[trigger] es[k], errs(h)[k], home(h, errs(h)[k])) by {
    if k < n { assert(es[k] == a.errors@[k]); assert(done(h, a.errors@, k)); }
    else { assert(open(h, a.no_range@, n, k - n)); }
  }
}
pub open spec fn stays<K: Triviable, E>(h: Seq<In<K, E>>, g: Seq<In<K, E>>, e: In<K, E>, i: int) -> bool {
  &&& 0 <= i < h.len() && g[i] == h[i]
  &&& next_solid(g, i) == (match next_solid(h, i) { Some(j) => Some(j), None => if solid(e) { Some(h.len() as int) } else { None } })
  &&& place(g, next_solid(h, i)) == place(h, next_solid(h, i))
}
//@splice crates/event-parse/src/rowan_sink.rs
derive RowanSink
derive Error Clone
attr struct Error #[verifier::allow(autoderive_clone_without_spec)]
attr struct RowanSink #[verifier::reject_recursive_types(K)] #[verifier::reject_recursive_types(E)]
rewrite `K: Clone,` => `K: XInto<SyntaxKind> + Triviable + Clone,`
rewrite `impl<K, E> Default for RowanSink<K, E> {` => `impl<K: XInto<SyntaxKind> + Triviable, E> Default for RowanSink<K, E> {`
inherent Sink@RowanSink
inherent Default@RowanSink
rewrite `Into<SyntaxKind>` => `XInto<SyntaxKind>`
rewrite `.into` => `.x_into`
rewrite `.into_iter` => `.x_into_iter`
rewrite `.map` => `.x_map`
rewrite `.extend` => `.x_extend`
rewrite `std::mem::take` => `x_take`
fn Default@RowanSink::default
  ret r
  spec
    ensures r.after(Seq::empty()),
fn RowanSink::extend_errors
  spec
    requires lawful_clone::<K>(),
    ensures final(self).builder == old(self).builder, final(self).cur == old(self).cur, final(self).no_range@ == Seq::<E>::empty(),
      final(self).errors@ == old(self).errors@ + Seq::new(old(self).no_range@.len(), |i: int| Error { range: old(self).cur.0, kind: old(self).cur.1, inner: old(self).no_range@[i] }),
  closure 0 |$0| -> (r: Error<K, E>)
    requires true ensures r.range == self.cur.0, r.inner == $0, self.cur.1 is Some <==> r.kind is Some, self.cur.1 matches Some(k) ==> vstd::pervasive::cloned(k, r.kind->0),
fn RowanSink::finish
  ret r
  spec
    requires lawful_clone::<K>(),
    ensures forall|h: Seq<In<K, E>>| #[trigger] self.after(h) ==> all_placed(h, r.1@) && built(h, r.0.ops()) && ops_text(r.0.ops()) == text(h),
  at start
    proof {
      assert forall|h: Seq<In<K, E>>| #[trigger] self.after(h) implies
        ({ let es = self.errors@ + Seq::new(self.no_range@.len(), |i: int| Error { range: self.cur.0, kind: self.cur.1, inner: self.no_range@[i] });
           all_placed(h, es) && ops_text(self.builder.ops()) == text(h) }) by {
        all_home(self, h, self.errors@ + Seq::new(self.no_range@.len(), |i: int| Error { range: self.cur.0, kind: self.cur.1, inner: self.no_range@[i] }));
        lemma_text(h, self.builder.ops());
      }
    }
fn Sink@RowanSink::enter
  spec
    ensures forall|h: Seq<In<K, E>>| #[trigger] old(self).after(h) ==> final(self).after(h.push(In::Enter(kind))),
  at start
    let ghost a = *self;
  at end
    proof { assert forall|h: Seq<In<K, E>>| #[trigger] a.after(h) implies self.after(h.push(In::Enter(kind))) by {
      let g = h.push(In::Enter(kind)); step(a, h, In::Enter(kind)); assert(self.builder.ops().drop_last() =~= a.builder.ops()); waits_on(a, *self, h, In::Enter(kind)); assert(self.waits(g)); assert(built(g, self.builder.ops())); } }
fn Sink@RowanSink::exit
  spec
    ensures forall|h: Seq<In<K, E>>| #[trigger] old(self).after(h) ==> final(self).after(h.push(In::Exit)),
  at start
    let ghost a = *self;
  at end
    proof { assert forall|h: Seq<In<K, E>>| #[trigger] a.after(h) implies self.after(h.push(In::Exit)) by {
      let g = h.push(In::Exit); step(a, h, In::Exit); assert(self.builder.ops().drop_last() =~= a.builder.ops()); waits_on(a, *self, h, In::Exit); assert(self.waits(g)); assert(built(g, self.builder.ops())); } }
fn Sink@RowanSink::error
  spec
    ensures forall|h: Seq<In<K, E>>| #[trigger] old(self).after(h) ==> final(self).after(h.push(In::Err(error))),
  at start
    let ghost a = *self;
  at end
    proof { assert forall|h: Seq<In<K, E>>| #[trigger] a.after(h) implies self.after(h.push(In::Err(error))) by {
      let g = h.push(In::Err(error)); step(a, h, In::Err(error)); waits_on(a, *self, h, In::Err(error)); assert(self.waits(g)); assert(built(g, self.builder.ops())); } }
fn Sink@RowanSink::token
  spec
    requires lawful_clone::<K>(), old(self).cur.0.hi() + size(token.text@) <= u32::MAX,
    ensures forall|h: Seq<In<K, E>>| #[trigger] old(self).after(h) ==> final(self).after(h.push(In::Tok(token.kind, token.text@))),
  at start
    let ghost a = *self;
  at end
    proof { assert forall|h: Seq<In<K, E>>| #[trigger] a.after(h) implies self.after(h.push(In::Tok(token.kind, token.text@))) by {
      let g = h.push(In::Tok(token.kind, token.text@)); step(a, h, In::Tok(token.kind, token.text@)); assert(self.builder.ops().drop_last() =~= a.builder.ops()); assert(last_tok(g, g.len() as int) == Some(h.len() as int)); assert(pos(g, g.len() as int) == pos(h, h.len() as int) + size(token.text@)); assert(place(g, Some(h.len() as int)) == (self.cur.0.lo() as nat, self.cur.0.hi() as nat, self.cur.1)); waits_on(a, *self, h, In::Tok(token.kind, token.text@)); assert(self.waits(g)); assert(built(g, self.builder.ops())); } }
//@end
}
}
fn main() {}
