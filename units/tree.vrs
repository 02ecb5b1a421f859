#![feature(allocator_api)]
#![allow(unused_imports, dead_code, unused_macros)]
use vstd::prelude::*;
use std::collections::{HashMap, HashSet};
use std::hash::{BuildHasher, Hash};
use vstd::std_specs::iter::IteratorSpec;
use vstd::std_specs::hash::*;
use vstd::string::*;
//@include std.inc
//@include char.inc
//@include opt.inc
//@include fmt.inc
use xstd::*;
use xchar::*;
use xopt::*;
use fmt::{x_new_string, x_push_arg, x_write_str, x_write_arg};
verus! {
//@include gen.inc
use crate::seq::Modifier;
/// `Iterator::map` on an iterator that is done with afterwards, and others
pub trait TreeShim: Iterator + Sized {
  #[verifier::external_body]
  fn x_map<B, F: FnMut(Self::Item) -> B>(self, f: F) -> (r: XIter<B>)
    requires self.obeys_prophetic_iter_laws(), self.decrease() is Some,
      forall|k: int| 0 <= k < self.remaining().len() ==> call_requires(f, (#[trigger] self.remaining()[k],)),
    ensures r.rest().len() == self.remaining().len(),
      forall|k: int| 0 <= k < r.rest().len() ==> call_ensures(f, (self.remaining()[k],), #[trigger] r.rest()[k]),
  { unimplemented!() }
  #[verifier::external_body]
  fn x_filter_map<B, F: FnMut(Self::Item) -> Option<B>>(self, f: F) -> (r: XIter<B>)
    requires self.obeys_prophetic_iter_laws(), self.decrease() is Some,
      forall|k: int| 0 <= k < self.remaining().len() ==> call_requires(f, (#[trigger] self.remaining()[k],)),
    ensures exists|os: Seq<Option<B>>| #[trigger] os.len() == self.remaining().len() && somes(os) == r.rest()
      && forall|k: int| 0 <= k < os.len() ==> call_ensures(f, (self.remaining()[k],), #[trigger] os[k]),
  { unimplemented!() }
  #[verifier::external_body]
  fn x_chain<J: IntoIterator<Item = Self::Item>>(self, o: J) -> (r: XIter<Self::Item>)
    requires self.obeys_prophetic_iter_laws(), self.decrease() is Some,
      into_iter_spec(o).obeys_prophetic_iter_laws(), into_iter_spec(o).decrease() is Some,
    ensures r.rest() == self.remaining() + into_iter_spec(o).remaining(),
  { unimplemented!() }
  /// `Iterator::cloned`
  #[verifier::external_body]
  fn x_cloned<'a, T: Clone + 'a>(self) -> (r: XIter<T>) where Self: Iterator<Item = &'a T>
    requires self.obeys_prophetic_iter_laws(), self.decrease() is Some,
    ensures r.rest().len() == self.remaining().len(), forall|k: int| 0 <= k < r.rest().len() ==> vstd::pervasive::cloned(*self.remaining()[k], #[trigger] r.rest()[k]),
  { unimplemented!() }
  /// `Iterator::collect` into a `Vec`
  #[verifier::external_body]
  fn x_collect(self) -> (r: Vec<Self::Item>)
    requires self.obeys_prophetic_iter_laws(), self.decrease() is Some,
    ensures r@ == self.remaining()
  { unimplemented!() }
}
impl<I: Iterator> TreeShim for I {}
pub open spec fn somes<B>(os: Seq<Option<B>>) -> Seq<B> decreases os.len() {
  if os.len() == 0 { Seq::empty() } else { let p = somes(os.drop_last()); match os.last() { Some(b) => p.push(b), None => p } }
}
/// repetitions in `quote!`
pub open spec fn opt_text(s: Seq<char>) -> Seq<Tok> { if s.len() == 0 { Seq::empty() } else { seq![Tok::Text(s)] } }
pub open spec fn reps(items: Seq<Seq<Tok>>, pre: Seq<char>, post: Seq<char>, sep: Seq<char>) -> Seq<Tok> decreases items.len() {
  if items.len() == 0 { Seq::empty() }
  else { reps(items.drop_last(), pre, post, sep) + (if items.len() > 1 { opt_text(sep) } else { Seq::empty() }) + opt_text(pre) + items.last() + opt_text(post) }
}
pub open spec fn all_toks<T: ToToks>(s: Seq<T>) -> Seq<Seq<Tok>> { Seq::new(s.len(), |i: int| s[i].toks()) }
pub trait QRepRef {
  spec fn items(&self) -> Seq<Seq<Tok>>;
  fn q_rep(&self, q: &mut proc_macro2::TokenStream, pre: &'static str, post: &'static str, sep: &'static str)
    ensures final(q)@ == old(q)@.add(reps(self.items(), pre@, post@, sep@));
}
impl<T: ToToks> QRepRef for [T] {
  open spec fn items(&self) -> Seq<Seq<Tok>> { all_toks(self@) }
  #[verifier::external_body]
  fn q_rep(&self, q: &mut proc_macro2::TokenStream, pre: &'static str, post: &'static str, sep: &'static str) { unimplemented!() }
}
impl<T: ToToks> QRepRef for Vec<T> {
  open spec fn items(&self) -> Seq<Seq<Tok>> { all_toks(self@) }
  #[verifier::external_body]
  fn q_rep(&self, q: &mut proc_macro2::TokenStream, pre: &'static str, post: &'static str, sep: &'static str) { unimplemented!() }
}
pub trait QRepIter: Sized {
  spec fn items(&self) -> Seq<Seq<Tok>>;
  fn q_rep(self, q: &mut proc_macro2::TokenStream, pre: &'static str, post: &'static str, sep: &'static str)
    ensures final(q)@ == old(q)@.add(reps(self.items(), pre@, post@, sep@));
}
impl<T: ToToks> QRepIter for XIter<T> {
  open spec fn items(&self) -> Seq<Seq<Tok>> { all_toks(self.rest()) }
  #[verifier::external_body]
  fn q_rep(self, q: &mut proc_macro2::TokenStream, pre: &'static str, post: &'static str, sep: &'static str) { unimplemented!() }
}
/// `HashMap::entry(k).or_default()` for counters
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
pub struct XEntry<'a, K> { m: core::marker::PhantomData<&'a mut K> }
impl<'a, K> XEntry<'a, K> {
  pub uninterp spec fn cur(&self) -> Option<usize>;
  #[verifier::prophetic]
  pub uninterp spec fn fin(&self) -> Option<usize>;
  #[verifier::external_body]
  pub fn or_default(self) -> (r: &'a mut usize)
    ensures *r == (match self.cur() { Some(n) => n, None => 0 }), self.fin() == Some(*final(r)),
  { unimplemented!() }
}
pub trait EntryShim<K> {
  spec fn mv(&self) -> Map<K, usize>;
  fn x_entry<'a>(&'a mut self, k: K) -> (r: XEntry<'a, K>)
    requires obeys_key_model::<K>(), builds_valid_hashers::<fast_hash::FxBuildHasher>(),
    ensures r.cur() == (if old(self).mv().contains_key(k) { Some(old(self).mv()[k]) } else { None }),
      match r.fin() { Some(n) => final(self).mv() == old(self).mv().insert(k, n), None => final(self).mv() == old(self).mv() };
}
impl<K> EntryShim<K> for fast_hash::FxHashMap<K, usize> {
  open spec fn mv(&self) -> Map<K, usize> { self@ }
  #[verifier::external_body]
  fn x_entry<'a>(&'a mut self, k: K) -> (r: XEntry<'a, K>) { unimplemented!() }
}
pub trait UnwrapShim<T>: Sized {
  spec fn o(&self) -> Option<T>;
  /// `unwrap`, where it may panic
  fn x_unwrap(self) -> (r: T) ensures self.o() == Some(r);
}
impl<T> UnwrapShim<T> for Option<T> {
  open spec fn o(&self) -> Option<T> { *self }
  #[verifier::external_body]
  fn x_unwrap(self) -> (r: T) { unimplemented!() }
}
pub assume_specification<T: ?Sized, A: core::alloc::Allocator> [<Box<T, A> as AsRef<T>>::as_ref] (b: &Box<T, A>) -> (r: &T)
  ensures r == &**b;
/// equality of strings is equality of their characters
pub broadcast axiom fn axiom_str_ext(a: &str, b: &str) ensures #[trigger] a.view() == #[trigger] b.view() ==> a == b;
/// Rust: no allocation is larger than isize::MAX bytes
pub broadcast axiom fn axiom_str_len(s: &str) ensures #[trigger] s.spec_bytes().len() <= isize::MAX;
pub broadcast group group_tree { axiom_str_len, axiom_str_ext, proc_macro2::axiom_ident_ext }

// ---------------------------------------------------------------- what is generated
pub open spec fn id(s: Seq<char>) -> Seq<Tok> { seq![Tok::Id(s)] }
pub open spec fn st(s: Seq<char>) -> Seq<Tok> { seq![Tok::Str(s)] }
pub open spec fn num(n: int) -> Seq<Tok> { seq![Tok::Num(n)] }
/// what of the grammar the code for a node depends on
pub struct G { pub lang: Seq<char>, pub g: ungrammar::Grammar, pub db: token::TokenDb, pub talts: Set<proc_macro2::Ident> }
impl util::Cx { pub open spec fn gg(&self) -> G { G { lang: self.lang@, g: self.grammar, db: self.tokens, talts: self.token_alts@ } } }
/// a field of a sequence: its label, how often it occurs, and what it is (a node or a token)
pub struct Fld { pub label: Option<Seq<char>>, pub m: Modifier, pub leaf: ungrammar::Rule }
/// the field a rule stands for; None where the generator refuses the grammar
pub open spec fn fld(r: ungrammar::Rule, m: Modifier, label: Option<Seq<char>>) -> Option<Fld> decreases r {
  match r {
    ungrammar::Rule::Node(_) | ungrammar::Rule::Token(_) => Some(Fld { label, m, leaf: r }),
    ungrammar::Rule::Labeled { label: l, rule } => if label is Some { None } else { fld(*rule, m, Some(l@)) },
    ungrammar::Rule::Opt(x) => if m is Regular { fld(*x, Modifier::Optional, label) } else { None },
    ungrammar::Rule::Rep(x) => if m is Regular { fld(*x, Modifier::Repeated, label) } else { None },
    _ => None,
  }
}
pub open spec fn field_of(r: ungrammar::Rule) -> Option<Fld> { fld(r, Modifier::Regular, None) }
impl G {
  /// the token's class and name
  pub open spec fn tok(&self, t: ungrammar::Token) -> token::Token {
    if self.db.punctuation@.contains_key(t) { self.db.punctuation@[t] } else if self.db.keywords@.contains_key(t) { self.db.keywords@[t] } else { self.db.special@[t] }
  }
  pub open spec fn has_tok(&self, t: ungrammar::Token) -> bool {
    self.db.punctuation@.contains_key(t) || self.db.keywords@.contains_key(t) || self.db.special@.contains_key(t)
  }
  /// nodes and tokens of a field exist
  pub open spec fn wf_field(&self, r: ungrammar::Rule) -> bool decreases r {
    match r {
      ungrammar::Rule::Node(n) => n.0 < self.g.nodes@.len(),
      ungrammar::Rule::Token(t) => t.0 < self.g.nt() && self.has_tok(t),
      ungrammar::Rule::Labeled { label: _, rule } => self.wf_field(*rule),
      ungrammar::Rule::Opt(x) => self.wf_field(*x),
      ungrammar::Rule::Rep(x) => self.wf_field(*x),
      _ => true,
    }
  }
  pub open spec fn wf_fields(&self, rules: Seq<ungrammar::Rule>) -> bool { forall|k: int| 0 <= k < rules.len() ==> #[trigger] self.wf_field(rules[k]) }
  /// the name of the child: the node's name, or the token's kind
  pub open spec fn child(&self, leaf: ungrammar::Rule) -> Seq<char> {
    match leaf { ungrammar::Rule::Node(n) => self.g.nodes@[n.0 as int].name@, ungrammar::Rule::Token(t) => self.tok(t).name@, _ => Seq::empty() }
  }
  /// how often the child `s` occurs among the first `k` rules
  pub open spec fn occ(&self, rules: Seq<ungrammar::Rule>, k: nat, s: Seq<char>) -> nat decreases k {
    if k == 0 { 0 } else { self.occ(rules, (k - 1) as nat, s) + (if self.child(field_of(rules[k - 1])->0.leaf) == s { 1nat } else { 0 }) }
  }
  proof fn lemma_occ_le(&self, rules: Seq<ungrammar::Rule>, k: nat, s: Seq<char>) ensures self.occ(rules, k, s) <= k decreases k {
    if k > 0 { self.lemma_occ_le(rules, (k - 1) as nat, s); }
  }
  proof fn lemma_occ_all(&self, rules: Seq<ungrammar::Rule>, k: nat) ensures forall|s: Seq<char>| #[trigger] self.occ(rules, k, s) <= k {
    assert forall|s: Seq<char>| #[trigger] self.occ(rules, k, s) <= k by { self.lemma_occ_le(rules, k, s); }
  }
  pub open spec fn is_token_alt(&self, name: Seq<char>) -> bool { exists|i: proc_macro2::Ident| #[trigger] self.talts.contains(i) && i@ == name }
  /// all children of that name, in order
  pub open spec fn children(&self, leaf: ungrammar::Rule) -> Seq<Tok> {
    match leaf {
      ungrammar::Rule::Node(n) => if self.is_token_alt(self.child(leaf)) { quote_spec! { token_children(self) } } else { quote_spec! { node_children(self) } },
      _ => quote_spec! { tokens(self, SK::#{id(self.child(leaf))}) },
    }
  }
  pub open spec fn child_name_ty(&self, leaf: ungrammar::Rule) -> Seq<char> {
    match leaf { ungrammar::Rule::Node(n) => self.child(leaf), _ => "SyntaxToken"@ }
  }
  pub open spec fn child_ty(&self, leaf: ungrammar::Rule) -> Seq<Tok> { id(self.child_name_ty(leaf)) }
  pub open spec fn accessor_name(&self, f: Fld) -> Seq<char> {
    match f.label {
      Some(l) => l,
      None => { let s = snk(self.child(f.leaf), true); if f.m is Repeated { s + "s"@ } else { s } }
    }
  }
  /// the accessor of the `k`-th rule of a sequence
  pub open spec fn accessor(&self, rules: Seq<ungrammar::Rule>, k: int) -> Seq<Tok> {
    let f = field_of(rules[k])->0;
    self.accessor_of(f, self.occ(rules, k as nat, self.child(f.leaf)))
  }
  /// .. where `n` fields with that child come before
  pub open spec fn accessor_of(&self, f: Fld, n: nat) -> Seq<Tok> {
    let all = self.children(f.leaf);
    let ty = self.child_ty(f.leaf);
    let name = self.accessor_name(f);
    if f.m is Repeated {
      let ret = quote_spec! { impl Iterator<Item = #ty> + use<> };
      quote_spec! { pub fn #{id(name)}(&self) -> #ret { #all } }
    } else {
      let ret = quote_spec! { Option<#ty> };
      let body = if n == 0 { quote_spec! { #all.next() } } else { quote_spec! { #all.nth(#{num(n as int)}) } };
      quote_spec! { pub fn #{id(name)}(&self) -> #ret { #body } }
    }
  }
  pub open spec fn accessors(&self, rules: Seq<ungrammar::Rule>) -> Seq<Seq<Tok>> { Seq::new(rules.len(), |k: int| self.accessor(rules, k)) }
  /// the type of a node that is a sequence
  pub open spec fn seq_type(&self, name: Seq<char>, rules: Seq<ungrammar::Rule>) -> Seq<Tok> {
    let derives = if name == "Root"@ { quote_spec! { #[derive(Clone)] } } else { Seq::empty() };
    let extra = if name == "Root"@ { quote_spec! {
      impl std::fmt::Debug for #{id(name)} {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
          self.syntax().fmt(f)
        }
      }
    } } else { Seq::empty() };
    quote_spec! {
      #derives
      pub struct #{id(name)}(SyntaxNode);
      impl #{id(name)} {
        #{reps(self.accessors(rules), ""@, ""@, ""@)}
      }
      #extra
      impl AstNode for #{id(name)} {
        type Language = #{id(self.lang)};

        fn can_cast(kind: SK) -> bool {
          kind == SK::#{id(name)}
        }

        fn cast(node: SyntaxNode) -> Option<Self> {
          Self::can_cast(node.kind()).then_some(Self(node))
        }

        fn syntax(&self) -> &SyntaxNode {
          &self.0
        }
      }
    }
  }
}
/// names of the nodes, or tokens, of an alternative
pub open spec fn node_name(g: G, r: ungrammar::Rule) -> Seq<char> { match r { ungrammar::Rule::Node(n) => g.g.nodes@[n.0 as int].name@, _ => Seq::empty() } }
pub open spec fn tok_name(g: G, r: ungrammar::Rule) -> Seq<char> { match r { ungrammar::Rule::Token(t) => g.tok(t).name@, _ => Seq::empty() } }
pub open spec fn tok_text(g: G, r: ungrammar::Rule) -> Seq<char> { match r { ungrammar::Rule::Token(t) => g.g.text(t), _ => Seq::empty() } }
pub open spec fn lists(v: Seq<proc_macro2::TokenStream>, n: int, f: spec_fn(int) -> Seq<Tok>) -> bool { forall|k: int| 0 <= k < n ==> (#[trigger] v[k])@ == f(k) }
pub open spec fn node_def(c: Seq<Tok>) -> Seq<Tok> { quote_spec! { #c(#c) } }
pub open spec fn node_kind(c: Seq<Tok>) -> Seq<Tok> { quote_spec! { SK::#c } }
pub open spec fn node_cast(c: Seq<Tok>) -> Seq<Tok> { quote_spec! { SK::#c => Self::#c(#c(node)) } }
pub open spec fn node_syntax(c: Seq<Tok>) -> Seq<Tok> { quote_spec! { Self::#c(x) => x.syntax() } }
pub open spec fn tok_def(c: Seq<Tok>) -> Seq<Tok> { quote_spec! { #c } }
pub open spec fn tok_cast(c: Seq<Tok>, kind: Seq<Tok>) -> Seq<Tok> { quote_spec! { SK::#c => #kind::#c } }
pub open spec fn tok_str(c: Seq<Tok>, text: Seq<Tok>) -> Seq<Tok> { quote_spec! { Self::#c => #text } }
pub open spec fn per(n: nat, f: spec_fn(int) -> Seq<Tok>) -> Seq<Seq<Tok>> { Seq::new(n, f) }
impl G {
  /// the type of a node that is a choice between nodes
  pub open spec fn node_alt_type(&self, name: Seq<char>, rules: Seq<ungrammar::Rule>) -> Seq<Tok> {
    let defs = per(rules.len(), |k: int| node_def(id(node_name(*self, rules[k]))));
    let kinds = per(rules.len(), |k: int| node_kind(id(node_name(*self, rules[k]))));
    let casts = per(rules.len(), |k: int| node_cast(id(node_name(*self, rules[k]))));
    let syntaxes = per(rules.len(), |k: int| node_syntax(id(node_name(*self, rules[k]))));
    quote_spec! {
      pub enum #{id(name)} {
        #{reps(defs, ""@, ","@, ""@)}
      }
      impl AstNode for #{id(name)} {
        type Language = #{id(self.lang)};

        fn can_cast(kind: SK) -> bool {
          matches!(kind, #{reps(kinds, ""@, ""@, "|"@)})
        }

        fn cast(node: SyntaxNode) -> Option<Self> {
          let ret = match node.kind() {
            #{reps(casts, ""@, ","@, ""@)}
            _ => return None,
          };
          Some(ret)
        }

        fn syntax(&self) -> &SyntaxNode {
          match self {
            #{reps(syntaxes, ""@, ","@, ""@)}
          }
        }
      }
    }
  }
  /// the type of a node that is a choice between tokens
  pub open spec fn token_alt_type(&self, name: Seq<char>, rules: Seq<ungrammar::Rule>) -> Seq<Tok> {
    let kind = id(no_raw(name) + "Kind"@);
    let defs = per(rules.len(), |k: int| tok_def(id(tok_name(*self, rules[k]))));
    let casts = per(rules.len(), |k: int| tok_cast(id(tok_name(*self, rules[k])), kind));
    let to_strs = per(rules.len(), |k: int| tok_str(id(tok_name(*self, rules[k])), st(tok_text(*self, rules[k]))));
    quote_spec! {
      pub enum #kind {
        #{reps(defs, ""@, ","@, ""@)}
      }
      impl #kind {
        pub fn to_str(&self) -> &'static str {
          match *self {
            #{reps(to_strs, ""@, ","@, ""@)}
          }
        }
      }
      pub struct #{id(name)} {
        pub token: SyntaxToken,
        pub kind: #kind,
      }
      impl TryFrom<SyntaxToken> for #{id(name)} {
        type Error = ();
        fn try_from(token: SyntaxToken) -> Result<Self, Self::Error> {
          let kind = match token.kind() {
            #{reps(casts, ""@, ","@, ""@)}
            _ => return Err(()),
          };
          Ok(Self { token, kind })
        }
      }
    }
  }
  pub open spec fn alt_type(&self, name: Seq<char>, rules: Seq<ungrammar::Rule>) -> Seq<Tok> {
    if rules[0] is Node { self.node_alt_type(name, rules) } else { self.token_alt_type(name, rules) }
  }
}
/// the whole of ast.rs
pub open spec fn ast_file(lang: Seq<char>, types: Seq<Seq<Tok>>, file: Seq<char>) -> Seq<Tok> {
  quote_spec! {
    use crate::kind::{SyntaxKind as SK, SyntaxNode, SyntaxToken, #{id(lang)}};
    pub use rowan::ast::{AstNode, AstPtr};

    pub const GENERATED_BY: &str = #{st(file)};

    pub type SyntaxNodePtr = rowan::ast::SyntaxNodePtr<#{id(lang)}>;

    #[allow(unused)]
    fn tokens<P>(parent: &P, kind: SK) -> impl Iterator<Item = SyntaxToken> + use<P>
    where
      P: AstNode<Language = #{id(lang)}>,
    {
      parent
        .syntax()
        .children_with_tokens()
        .filter_map(rowan::NodeOrToken::into_token)
        .filter(move |tok| tok.kind() == kind)
    }

    #[allow(unused)]
    fn token_children<P, C>(parent: &P) -> impl Iterator<Item = C> + use<P, C>
    where
      P: AstNode<Language = #{id(lang)}>,
      SyntaxToken: TryInto<C>,
    {
      parent
        .syntax()
        .children_with_tokens()
        .filter_map(rowan::NodeOrToken::into_token)
        .filter_map(|x| x.try_into().ok())
    }

    #[allow(unused)]
    fn node_children<P, C>(parent: &P) -> impl Iterator<Item = C> + use<P, C>
    where
      P: AstNode<Language = #{id(lang)}>,
      C: AstNode<Language = #{id(lang)}>,
    {
      parent.syntax().children().filter_map(C::cast)
    }

    #{reps(types, ""@, ""@, ""@)}
    }
}
/// all of the given sort
pub open spec fn all_nodes(rules: Seq<ungrammar::Rule>) -> bool { forall|k: int| 0 <= k < rules.len() ==> (#[trigger] rules[k]) is Node }
pub open spec fn all_tokens(rules: Seq<ungrammar::Rule>) -> bool { forall|k: int| 0 <= k < rules.len() ==> (#[trigger] rules[k]) is Token }
pub mod util { use super::*; use super::token::TokenDb; use super::fast_hash::*; use super::proc_macro2::Ident; use super::ungrammar::{Grammar, Node, Rule, Token};
//@splice crates/syntax-gen/src/util.rs
panics may
fn unwrap_node
  ret r
  spec
    ensures *rule == Rule::Node(r)
fn unwrap_token
  ret r
  spec
    ensures *rule == Rule::Token(r)
//@end
}
pub mod seq { use super::*; use super::token::ident; use super::util::Cx; use super::identifier_case::pascal_to_snake; use super::proc_macro2::{Ident, TokenStream}; use super::ungrammar::{Rule, Token, Node};
  broadcast use group_tree;
pub open spec fn counts_ok(m: Map<&str, usize>, g: G, rules: Seq<Rule>, k: nat) -> bool {
  forall|s: &str| (#[trigger] m.contains_key(s) <==> g.occ(rules, k, s@) > 0) && (m.contains_key(s) ==> m[s] == g.occ(rules, k, s@))
}
pub open spec fn count_of(m: Map<&str, usize>, s: &str) -> usize { if m.contains_key(s) { m[s] } else { 0 } }
pub open spec fn went_by(s: &str, n: Seq<char>) -> bool { s@ == n }
pub open spec fn lab(l: Option<&str>) -> Option<Seq<char>> { match l { Some(l) => Some(l@), None => None } }
pub open spec fn keys_ok() -> bool { obeys_key_model::<&str>() && obeys_key_model::<Ident>() && obeys_key_model::<ungrammar::Token>() && builds_valid_hashers::<fast_hash::FxBuildHasher>() }
//@splice crates/syntax-gen/src/seq.rs
panics may
rewrite `.entry` => `.x_entry`
eager get 0 TokenStream
expand-quote
expand-fmt
fn get_idx
  ret r
  spec
    requires obeys_key_model::<T>(), builds_valid_hashers::<fast_hash::FxBuildHasher>(),
      old(counts)@.contains_key(key) ==> old(counts)@[key] < usize::MAX,
    ensures r == (if old(counts)@.contains_key(key) { old(counts)@[key] } else { 0 }),
      final(counts)@ == old(counts)@.insert(key, (r + 1) as usize),
fn Modifier::is_regular
  ret r
  spec
    ensures r == (self is Regular)
fn field
  ret r
  spec
    requires keys_ok(), cx.gg().wf_field(*rule),
      forall|s: &str| #[trigger] old(counts)@.contains_key(s) ==> old(counts)@[s] < usize::MAX,
    ensures field_of(*rule) is Some,
      exists|s: &str| #[trigger] went_by(s, cx.gg().child(field_of(*rule)->0.leaf)) && final(counts)@ == old(counts)@.insert(s, (count_of(old(counts)@, s) + 1) as usize)
        && r@ == cx.gg().accessor_of(field_of(*rule)->0, count_of(old(counts)@, s) as nat),
  at start
    let ghost rule0 = *rule;
  loop 0
    invariant keys_ok(), cx.gg().wf_field(*rule), 
      fld(*rule, modifier, lab(label)) == field_of(rule0),
    ensures
      field_of(rule0) == Some(Fld { label: lab(label), m: modifier, leaf: *rule }),
      name@ == cx.gg().child(*rule), base_ty@ == cx.gg().child_name_ty(*rule), base_body@ == cx.gg().children(*rule),
    decreases rule,
  at break 0 before
    proof { if cx.token_alts@.contains(base_ty) { assert(cx.gg().talts.contains(base_ty) && base_ty@ == name@); }
      assert(cx.gg().is_token_alt(name@) == cx.token_alts@.contains(base_ty)); }
  at tail
    proof {
      assert(went_by(name, cx.gg().child(field_of(rule0)->0.leaf)));
      assert(field_name@ =~= cx.gg().accessor_name(field_of(rule0)->0));
    }
fn get
  ret r
  spec
    requires keys_ok(), cx.gg().wf_fields(rules@),
    ensures forall|k: int| 0 <= k < rules@.len() ==> field_of(#[trigger] rules@[k]) is Some,
      r@ == cx.gg().seq_type(name@, rules@),
  loop 0 it
    invariant it.iter.obeys_prophetic_iter_laws(), it.iter.decrease() is Some, it.seq() == rules@.as_ref(),
      keys_ok(), cx.gg().wf_fields(rules@),
      counts_ok(counts@, cx.gg(), rules@, it.index@ as nat),
      x_v@.len() == it.index@,
      forall|k: int| 0 <= k < it.index@ ==> field_of(#[trigger] rules@[k]) is Some,
      forall|k: int| 0 <= k < it.index@ ==> (#[trigger] x_v@[k])@ == cx.gg().accessor(rules@, k),
  at loop 0 start
    let ghost counts0 = counts@;
    proof { cx.gg().lemma_occ_all(rules@, it.index@ as nat); assert(rules.len() == rules@.len());
      assert(cx.gg().wf_field(rules@[it.index@ as int])); }
  at loop 0 end
    proof {
      let k = it.index@ as int;
      let n = cx.gg().child(field_of(rules@[k])->0.leaf);
      let s = choose|s: &str| #[trigger] went_by(s, n) && counts@ == counts0.insert(s, (count_of(counts0, s) + 1) as usize)
        && x_e@ == cx.gg().accessor_of(field_of(*rule)->0, count_of(counts0, s) as nat);
      assert(cx.gg().occ(rules@, k as nat, n) == count_of(counts0, s));
      cx.gg().lemma_occ_le(rules@, k as nat, n);
      assert forall|t: &str| (#[trigger] counts@.contains_key(t) <==> cx.gg().occ(rules@, (k + 1) as nat, t@) > 0)
        && (counts@.contains_key(t) ==> counts@[t] == cx.gg().occ(rules@, (k + 1) as nat, t@)) by {
        if t == s { } else { assert(t@ != s@); assert(counts0.contains_key(t) == counts@.contains_key(t)); }
      }
    }
  at tail
    proof { assert(all_toks(fields@) =~= cx.gg().accessors(rules@)); }
//@end
}
pub mod alt { use super::*; use super::token::ident; use super::util::{Cx, unwrap_node, unwrap_token}; use super::fast_hash::FxHashSet; use super::proc_macro2::{Ident, TokenStream}; use super::ungrammar::Rule; use super::seq::keys_ok;
  broadcast use group_tree;
//@splice crates/syntax-gen/src/alt.rs
panics may
rewrite `.unwrap` => `.x_unwrap`
expand-quote
expand-fmt
fn get
  ret r
  spec
    requires keys_ok(), cx.gg().wf_fields(rules@),
    ensures rules@.len() > 0,
      rules@[0] is Node && all_nodes(rules@) || rules@[0] is Token && all_tokens(rules@),
      r@ == cx.gg().alt_type(name@, rules@),
      final(token_alts)@ == if rules@[0] is Token { old(token_alts)@.insert(name) } else { old(token_alts)@ },
fn get_nodes
  ret r
  spec
    requires cx.gg().wf_fields(rules@),
    ensures all_nodes(rules@), r@ == cx.gg().node_alt_type(name@, rules@),
  loop 0 it
    invariant it.iter.obeys_prophetic_iter_laws(), it.iter.decrease() is Some, it.seq() == rules@.as_ref(),
      cx.gg().wf_fields(rules@),
      forall|k: int| 0 <= k < it.index@ ==> (#[trigger] rules@[k]) is Node,
      defs@.len() == it.index@, kinds@.len() == it.index@, casts@.len() == it.index@, syntaxes@.len() == it.index@,
      lists(defs@, it.index@ as int, |k: int| node_def(id(node_name(cx.gg(), rules@[k])))),
      lists(kinds@, it.index@ as int, |k: int| node_kind(id(node_name(cx.gg(), rules@[k])))),
      lists(casts@, it.index@ as int, |k: int| node_cast(id(node_name(cx.gg(), rules@[k])))),
      lists(syntaxes@, it.index@ as int, |k: int| node_syntax(id(node_name(cx.gg(), rules@[k])))),
  at loop 0 start
    proof { assert(cx.gg().wf_field(rules@[it.index@ as int])); }
  at tail
    proof {
      assert(all_toks(defs@) =~= per(rules@.len(), |k: int| node_def(id(node_name(cx.gg(), rules@[k])))));
      assert(all_toks(kinds@) =~= per(rules@.len(), |k: int| node_kind(id(node_name(cx.gg(), rules@[k])))));
      assert(all_toks(casts@) =~= per(rules@.len(), |k: int| node_cast(id(node_name(cx.gg(), rules@[k])))));
      assert(all_toks(syntaxes@) =~= per(rules@.len(), |k: int| node_syntax(id(node_name(cx.gg(), rules@[k])))));
    }
fn get_tokens
  ret r
  spec
    requires keys_ok(), cx.gg().wf_fields(rules@),
    ensures all_tokens(rules@), r@ == cx.gg().token_alt_type(name@, rules@),
  loop 0 it
    invariant it.iter.obeys_prophetic_iter_laws(), it.iter.decrease() is Some, it.seq() == rules@.as_ref(),
      keys_ok(), cx.gg().wf_fields(rules@), name_kind@ == no_raw(name@) + "Kind"@,
      forall|k: int| 0 <= k < it.index@ ==> (#[trigger] rules@[k]) is Token,
      defs@.len() == it.index@, casts@.len() == it.index@, to_strs@.len() == it.index@,
      lists(defs@, it.index@ as int, |k: int| tok_def(id(tok_name(cx.gg(), rules@[k])))),
      lists(casts@, it.index@ as int, |k: int| tok_cast(id(tok_name(cx.gg(), rules@[k])), id(no_raw(name@) + "Kind"@))),
      lists(to_strs@, it.index@ as int, |k: int| tok_str(id(tok_name(cx.gg(), rules@[k])), st(tok_text(cx.gg(), rules@[k])))),
  at loop 0 before
    proof { assert(name_kind@ =~= no_raw(name@) + "Kind"@); }
  at loop 0 start
    proof { assert(cx.gg().wf_field(rules@[it.index@ as int])); }
  at tail
    proof {
      let kind = id(no_raw(name@) + "Kind"@);
      assert(all_toks(defs@) =~= per(rules@.len(), |k: int| tok_def(id(tok_name(cx.gg(), rules@[k])))));
      assert(all_toks(casts@) =~= per(rules@.len(), |k: int| tok_cast(id(tok_name(cx.gg(), rules@[k])), kind)));
      assert(all_toks(to_strs@) =~= per(rules@.len(), |k: int| tok_str(id(tok_name(cx.gg(), rules@[k])), st(tok_text(cx.gg(), rules@[k])))));
    }
//@end
}
pub mod ast { use super::*;
//@splice crates/syntax-gen/src/ast.rs
expand-quote
fn get
  ret r
  spec
    ensures r@ == ast_file(lang@, all_toks(types@), file@),
//@end
}

// ---------------------------------------------------------------- the kinds
/// an entry of a table: the token's text, and its name, description and documentation
pub type Entry = (Seq<char>, token::Token);
pub open spec fn ents(v: Seq<(&str, token::Token)>) -> Seq<Entry> { Seq::new(v.len(), |i: int| (v[i].0@, v[i].1)) }
pub open spec fn utf8_len(s: Seq<char>) -> nat { vstd::utf8::encode_utf8(s).len() }
pub open spec fn lex_le(a: Seq<char>, b: Seq<char>) -> bool decreases a.len() {
  if a.len() == 0 { true } else if b.len() == 0 { false } else if a[0] != b[0] { a[0] < b[0] } else { lex_le(a.skip(1), b.skip(1)) }
}
/// longer texts first, equally long ones alphabetically
pub open spec fn longest_first(e: Seq<Entry>) -> bool {
  forall|i: int, j: int| 0 <= i < j < e.len() ==> #[trigger] before(e[i].0, e[j].0)
}
pub open spec fn before(a: Seq<char>, b: Seq<char>) -> bool { utf8_len(a) > utf8_len(b) || utf8_len(a) == utf8_len(b) && lex_le(a, b) }
/// the keys of `m`, each once
pub open spec fn keys_once<K, V>(ts: Seq<K>, m: Map<K, V>) -> bool {
  &&& forall|i: int| 0 <= i < ts.len() ==> m.contains_key(#[trigger] ts[i])
  &&& forall|k: K| #[trigger] m.contains_key(k) ==> exists|i: int| 0 <= i < ts.len() && #[trigger] ts[i] == k
  &&& forall|i: int, j: int| 0 <= i < j < ts.len() ==> #[trigger] ts[i] != #[trigger] ts[j]
}
/// `e` has the tokens of `m`, each once, with their texts
pub open spec fn entries_of(e: Seq<Entry>, m: Map<ungrammar::Token, token::Token>, g: ungrammar::Grammar) -> bool {
  exists|ts: Seq<ungrammar::Token>| #[trigger] keys_once(ts, m) && e =~= Seq::new(ts.len(), |i: int| (g.text(ts[i]), m[ts[i]]))
}
pub open spec fn values_of(e: Seq<token::Token>, m: Map<ungrammar::Token, token::Token>) -> bool {
  exists|ts: Seq<ungrammar::Token>| #[trigger] keys_once(ts, m) && e =~= Seq::new(ts.len(), |i: int| m[ts[i]])
}
pub open spec fn bstr(s: Seq<char>) -> Seq<Tok> { seq![Tok::Bytes(vstd::utf8::encode_utf8(s))] }
pub open spec fn keyword_arm(e: Entry) -> Seq<Tok> { quote_spec! { #{bstr(e.0)} => Self::#{id(e.1.name@)} } }
pub open spec fn punct_elem(e: Entry) -> Seq<Tok> { quote_spec! { (#{bstr(e.0)}, Self::#{id(e.1.name@)}) } }
pub open spec fn text_arm(t: token::Token, s: Seq<char>) -> Seq<Tok> { quote_spec! { Self::#{id(t.name@)} => #{st(s)} } }
pub open spec fn trivium(s: Seq<char>) -> Seq<Tok> { quote_spec! { Self::#{id(s)} } }
/// a token's description, or its text in backticks
pub open spec fn desc_of(e: Entry) -> Seq<char> { match e.1.desc { Some(d) => d@, None => "`"@ + e.0 + "`"@ } }
pub open spec fn given_desc(t: token::Token) -> Option<Seq<Tok>> { match t.desc { Some(d) => Some(text_arm(t, d@)), None => None } }
pub open spec fn given_doc(t: token::Token) -> Option<Seq<Tok>> { match t.doc { Some(d) => Some(text_arm(t, d@)), None => None } }
pub open spec fn otoks(o: Option<proc_macro2::TokenStream>) -> Option<Seq<Tok>> { match o { Some(t) => Some(t@), None => None } }
pub open spec fn toks_of(e: Seq<Entry>) -> Seq<token::Token> { Seq::new(e.len(), |i: int| e[i].1) }
pub open spec fn desc_arms(e: Seq<Entry>, specials: Seq<token::Token>) -> Seq<Seq<Tok>> {
  per(e.len(), |k: int| text_arm(e[k].1, desc_of(e[k]))) + somes(Seq::new(specials.len(), |k: int| given_desc(specials[k])))
}
pub open spec fn doc_arms(e: Seq<Entry>, specials: Seq<token::Token>) -> Seq<Seq<Tok>> {
  let all = toks_of(e) + specials;
  somes(Seq::new(all.len(), |k: int| given_doc(all[k])))
}
pub open spec fn names_of(e: Seq<token::Token>) -> Seq<Seq<char>> { Seq::new(e.len(), |i: int| e[i].name@) }
pub open spec fn ids(e: Seq<Seq<char>>) -> Seq<Seq<Tok>> { per(e.len(), |k: int| id(e[k])) }
pub open spec fn views(v: Seq<proc_macro2::Ident>) -> Seq<Seq<char>> { Seq::new(v.len(), |i: int| v[i]@) }
/// all kinds: trivia, keywords, punctuation, special tokens, nodes
pub open spec fn all_kinds(trivia: Seq<Seq<char>>, kws: Seq<Entry>, puncts: Seq<Entry>, specials: Seq<token::Token>, nodes: Seq<Seq<char>>) -> Seq<Seq<char>> {
  trivia + names_of(toks_of(kws + puncts)) + names_of(specials) + nodes
}
/// the whole of kind.rs
pub open spec fn kind_file(lang: Seq<char>, trivia: Seq<Seq<char>>, kws: Seq<Entry>, puncts: Seq<Entry>, specials: Seq<token::Token>, kinds: Seq<Seq<char>>, file: Seq<char>) -> Seq<Tok> {
  quote_spec! {
    use std::fmt;

    pub const GENERATED_BY: &str = #{st(file)};

    #[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]
    #[repr(u16)]
    pub enum SyntaxKind {
      #{reps(ids(kinds), ""@, ","@, ""@)}
    }

    impl SyntaxKind {
      pub const PUNCTUATION: [(&'static [u8], Self); #{num(puncts.len() as int)}] = [
        #{reps(per(puncts.len(), |k: int| punct_elem(puncts[k])), ""@, ","@, ""@)}
      ];

      pub fn keyword(bs: &[u8]) -> Option<Self> {
        let ret = match bs {
          #{reps(per(kws.len(), |k: int| keyword_arm(kws[k])), ""@, ","@, ""@)}
          _ => return None,
        };
        Some(ret)
      }

      pub fn token_desc(&self) -> Option<&'static str> {
        let ret = match *self {
          #{reps(desc_arms(puncts + kws, specials), ""@, ","@, ""@)}
          _ => return None,
        };
        Some(ret)
      }

      pub fn token_doc(&self) -> Option<&'static str> {
        let ret = match *self {
          #{reps(doc_arms(puncts + kws, specials), ""@, ","@, ""@)}
          _ => return None,
        };
        Some(ret)
      }
    }

    impl token::Triviable for SyntaxKind {
      fn is_trivia(&self) -> bool {
        matches!(*self, #{reps(per(trivia.len(), |k: int| trivium(trivia[k])), ""@, ""@, "|"@)})
      }
    }

    impl fmt::Display for SyntaxKind {
      fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match self.token_desc() {
          None => fmt::Debug::fmt(self, f),
          Some(s) => f.write_str(s),
        }
      }
    }

    impl From<SyntaxKind> for rowan::SyntaxKind {
      fn from(kind: SyntaxKind) -> Self {
        Self(kind as u16)
      }
    }

    #[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]
    pub enum #{id(lang)} {}

    impl rowan::Language for #{id(lang)} {
      type Kind = SyntaxKind;

      fn kind_from_raw(raw: rowan::SyntaxKind) -> Self::Kind {
        assert!(raw.0 <= SyntaxKind::#{id(kinds.last())} as u16);
        unsafe { std::mem::transmute::<u16, SyntaxKind>(raw.0) }
      }

      fn kind_to_raw(kind: Self::Kind) -> rowan::SyntaxKind {
        kind.into()
      }
    }

    pub type SyntaxNode = rowan::SyntaxNode<#{id(lang)}>;
    pub type SyntaxToken = rowan::SyntaxToken<#{id(lang)}>;
    pub type SyntaxElement = rowan::SyntaxElement<#{id(lang)}>;
  }
}
pub open spec fn tables_ok(kws: Seq<Entry>, puncts: Seq<Entry>, specials: Seq<token::Token>, g: ungrammar::Grammar, db: token::TokenDb) -> bool {
  &&& entries_of(kws, db.keywords@, g) && longest_first(kws)
  &&& entries_of(puncts, db.punctuation@, g) && longest_first(puncts)
  &&& values_of(specials, db.special@)
}
pub open spec fn kind_ok(r: Seq<Tok>, lang: Seq<char>, g: ungrammar::Grammar, db: token::TokenDb, trivia: Seq<Seq<char>>, nodes: Seq<Seq<char>>, file: Seq<char>) -> bool {
  exists|kws: Seq<Entry>, puncts: Seq<Entry>, specials: Seq<token::Token>| #[trigger] tables_ok(kws, puncts, specials, g, db)
    && r == kind_file(lang, trivia, kws, puncts, specials, all_kinds(trivia, kws, puncts, specials, nodes), file)
}
pub open spec fn in_grammar(m: Map<ungrammar::Token, token::Token>, g: ungrammar::Grammar) -> bool { forall|t: ungrammar::Token| #[trigger] m.contains_key(t) ==> t.0 < g.nt() }
pub open spec fn db_in(db: token::TokenDb, g: ungrammar::Grammar) -> bool { in_grammar(db.keywords@, g) && in_grammar(db.punctuation@, g) && in_grammar(db.special@, g) }

/// a permutation and its inverse
pub open spec fn perm(p: Seq<int>, q: Seq<int>, n: nat) -> bool {
  &&& p.len() == n && q.len() == n
  &&& forall|i: int| 0 <= i < n ==> 0 <= #[trigger] p[i] < n && q[p[i]] == i
  &&& forall|i: int| 0 <= i < n ==> 0 <= #[trigger] q[i] < n && p[q[i]] == i
}
pub open spec fn permuted<T>(a: Seq<T>, b: Seq<T>, p: Seq<int>, q: Seq<int>) -> bool {
  perm(p, q, a.len()) && b.len() == a.len() && forall|i: int| 0 <= i < b.len() ==> #[trigger] b[i] == a[p[i]]
}
pub struct Reverse<T>(pub T);
/// `Ord`
pub trait XOrd { spec fn le(&self, o: &Self) -> bool; }
impl XOrd for usize { open spec fn le(&self, o: &Self) -> bool { *self <= *o } }
impl<'a> XOrd for &'a str { open spec fn le(&self, o: &Self) -> bool { lex_le(self@, o@) } }
impl<T: XOrd> XOrd for Reverse<T> { open spec fn le(&self, o: &Self) -> bool { o.0.le(&self.0) } }
impl<A: XOrd, B: XOrd> XOrd for (A, B) { open spec fn le(&self, o: &Self) -> bool { self.0.le(&o.0) && (!o.0.le(&self.0) || self.1.le(&o.1)) } }
proof fn lemma_entries_perm(a: Seq<(&str, token::Token)>, b: Seq<(&str, token::Token)>, m: Map<ungrammar::Token, token::Token>, g: ungrammar::Grammar)
  requires entries_of(ents(a), m, g), exists|p: Seq<int>, q: Seq<int>| #[trigger] permuted(a, b, p, q),
  ensures entries_of(ents(b), m, g),
{
  let (p, q) = choose|p: Seq<int>, q: Seq<int>| #[trigger] permuted(a, b, p, q);
  let ts = choose|ts: Seq<ungrammar::Token>| #[trigger] keys_once(ts, m) && ents(a) =~= Seq::new(ts.len(), |i: int| (g.text(ts[i]), m[ts[i]]));
  let us = Seq::new(ts.len(), |i: int| ts[p[i]]);
  lemma_keys_perm(ts, us, m, p, q);
  assert forall|i: int| 0 <= i < us.len() implies ents(b)[i] == (g.text(us[i]), m[us[i]]) by {
    assert(b[i] == a[p[i]]); assert(ents(a)[p[i]] == (g.text(ts[p[i]]), m[ts[p[i]]]));
  }
  assert(ents(b) =~= Seq::new(us.len(), |i: int| (g.text(us[i]), m[us[i]])));
}
proof fn lemma_values_perm(a: Seq<token::Token>, b: Seq<token::Token>, m: Map<ungrammar::Token, token::Token>)
  requires values_of(a, m), exists|p: Seq<int>, q: Seq<int>| #[trigger] permuted(a, b, p, q),
  ensures values_of(b, m),
{
  let (p, q) = choose|p: Seq<int>, q: Seq<int>| #[trigger] permuted(a, b, p, q);
  let ts = choose|ts: Seq<ungrammar::Token>| #[trigger] keys_once(ts, m) && a =~= Seq::new(ts.len(), |i: int| m[ts[i]]);
  let us = Seq::new(ts.len(), |i: int| ts[p[i]]);
  lemma_keys_perm(ts, us, m, p, q);
  assert forall|i: int| 0 <= i < us.len() implies b[i] == m[us[i]] by { assert(b[i] == a[p[i]]); }
  assert(b =~= Seq::new(us.len(), |i: int| m[us[i]]));
}
proof fn lemma_keys_perm<K, V>(ts: Seq<K>, us: Seq<K>, m: Map<K, V>, p: Seq<int>, q: Seq<int>)
  requires keys_once(ts, m), perm(p, q, ts.len()), us == Seq::new(ts.len(), |i: int| ts[p[i]]),
  ensures keys_once(us, m),
{
  assert forall|k: K| #[trigger] m.contains_key(k) implies exists|i: int| 0 <= i < us.len() && #[trigger] us[i] == k by {
    let i = choose|i: int| 0 <= i < ts.len() && #[trigger] ts[i] == k;
    assert(us[q[i]] == ts[p[q[i]]]);
  }
  assert forall|i: int, j: int| 0 <= i < j < us.len() implies #[trigger] us[i] != #[trigger] us[j] by {
    assert(q[p[i]] == i && q[p[j]] == j); assert(us[i] == ts[p[i]] && us[j] == ts[p[j]]);
    if p[i] < p[j] { } else { assert(p[j] < p[i]); }
  }
}
proof fn lemma_somes(os: Seq<Option<proc_macro2::TokenStream>>, ts: Seq<Option<Seq<Tok>>>)
  requires os.len() == ts.len(), forall|k: int| 0 <= k < os.len() ==> otoks(#[trigger] os[k]) == ts[k],
  ensures all_toks(somes(os)) == somes(ts),
  decreases os.len(),
{
  if os.len() > 0 {
    assert forall|k: int| 0 <= k < os.drop_last().len() implies otoks(#[trigger] os.drop_last()[k]) == ts.drop_last()[k] by { assert(os[k] == os.drop_last()[k]); }
    lemma_somes(os.drop_last(), ts.drop_last());
    assert(otoks(os[os.len() - 1]) == ts[os.len() - 1]);
    assert(all_toks(somes(os)) =~= somes(ts));
  } else { assert(all_toks(somes(os)) =~= somes(ts)); }
}
pub trait SortShim<T> {
  spec fn vv(&self) -> Seq<T>;
  /// `sort_unstable_by_key`
  fn x_sort_by_key<K: XOrd, F: FnMut(&T) -> K>(&mut self, f: F)
    requires forall|i: int| 0 <= i < old(self).vv().len() ==> call_requires(f, (&#[trigger] old(self).vv()[i],)),
    ensures exists|p: Seq<int>, q: Seq<int>| #[trigger] permuted(old(self).vv(), final(self).vv(), p, q),
      forall|i: int, j: int| 0 <= i < j < final(self).vv().len() ==> keys_le(f, #[trigger] final(self).vv()[i], #[trigger] final(self).vv()[j]);
  /// `sort_unstable`
  fn x_sort(&mut self)
    ensures exists|p: Seq<int>, q: Seq<int>| #[trigger] permuted(old(self).vv(), final(self).vv(), p, q);
}
pub open spec fn keys_le<T, K: XOrd, F: FnMut(&T) -> K>(f: F, a: T, b: T) -> bool {
  exists|x: K, y: K| #[trigger] call_ensures(f, (&a,), x) && #[trigger] call_ensures(f, (&b,), y) && x.le(&y)
}
impl<T> SortShim<T> for Vec<T> {
  open spec fn vv(&self) -> Seq<T> { self@ }
  #[verifier::external_body]
  fn x_sort_by_key<K: XOrd, F: FnMut(&T) -> K>(&mut self, f: F) { unimplemented!() }
  #[verifier::external_body]
  fn x_sort(&mut self) { unimplemented!() }
}
pub trait TableShim<K, V>: Sized {
  spec fn mv(&self) -> Map<K, V>;
  /// `HashMap::into_iter`
  fn x_into_iter(self) -> (r: XIter<(K, V)>)
    requires obeys_key_model::<K>(), builds_valid_hashers::<fast_hash::FxBuildHasher>(),
    ensures keys_once(Seq::new(r.rest().len(), |i: int| r.rest()[i].0), self.mv()),
      forall|i: int| 0 <= i < r.rest().len() ==> self.mv().contains_key((#[trigger] r.rest()[i]).0),
      forall|i: int| 0 <= i < r.rest().len() ==> (#[trigger] r.rest()[i]).1 == self.mv()[r.rest()[i].0];
  /// `HashMap::into_values`
  fn x_into_values(self) -> (r: XIter<V>)
    requires obeys_key_model::<K>(), builds_valid_hashers::<fast_hash::FxBuildHasher>(),
    ensures exists|ts: Seq<K>| #[trigger] keys_once(ts, self.mv()) && r.rest() == Seq::new(ts.len(), |i: int| self.mv()[ts[i]]);
}
impl<K, V> TableShim<K, V> for fast_hash::FxHashMap<K, V> {
  open spec fn mv(&self) -> Map<K, V> { self@ }
  #[verifier::external_body]
  fn x_into_iter(self) -> (r: XIter<(K, V)>) { unimplemented!() }
  #[verifier::external_body]
  fn x_into_values(self) -> (r: XIter<V>) { unimplemented!() }
}
pub broadcast axiom fn axiom_into_iter_vec<T>(v: Vec<T>)
  ensures (#[trigger] into_iter_spec(v)).remaining() == v@, into_iter_spec(v).obeys_prophetic_iter_laws(), into_iter_spec(v).decrease() is Some;
pub mod kind { use super::*; use super::util::Cx; use super::seq::keys_ok; use crate::fmt::Display as _;
  broadcast use {group_tree, group_xstd, axiom_into_iter_vec};
//@splice crates/syntax-gen/src/kind.rs
panics may
rewrite `.unwrap` => `.x_unwrap`
rewrite `.into_iter` => `.x_into_iter`
rewrite `.into_values` => `.x_into_values`
rewrite `.sort_unstable_by_key` => `.x_sort_by_key`
rewrite `.sort_unstable` => `.x_sort`
rewrite `.map` => `.x_map`
rewrite `.filter_map` => `.x_filter_map`
rewrite `.chain` => `.x_chain`
rewrite `.cloned` => `.x_cloned`
rewrite `.collect` => `.x_collect`
expand-quote
expand-fmt
fn get
  ret r
  spec
    requires keys_ok(), db_in(arg_0.tokens, arg_0.grammar),
    ensures kind_ok(r@, arg_0.lang@, arg_0.grammar, arg_0.tokens, views(trivia@), views(node_syntax_kinds@), file@),
  at call x_sort_by_key 0 before
    let ghost xs0 = xs@;
    proof { assert(entries_of(ents(xs@), arg_0.tokens.keywords@, arg_0.grammar)); }
  at call x_sort_by_key 0 after
    proof { lemma_entries_perm(xs0, xs@, arg_0.tokens.keywords@, arg_0.grammar);
      assert forall|i: int, j: int| 0 <= i < j < ents(xs@).len() implies #[trigger] before(ents(xs@)[i].0, ents(xs@)[j].0) by { let a = xs@[i]; let b = xs@[j]; } }
  at call x_sort_by_key 1 before
    let ghost xs0 = xs@;
    proof { assert(entries_of(ents(xs@), arg_0.tokens.punctuation@, arg_0.grammar)); }
  at call x_sort_by_key 1 after
    proof { lemma_entries_perm(xs0, xs@, arg_0.tokens.punctuation@, arg_0.grammar);
      assert forall|i: int, j: int| 0 <= i < j < ents(xs@).len() implies #[trigger] before(ents(xs@)[i].0, ents(xs@)[j].0) by { let a = xs@[i]; let b = xs@[j]; } }
  at call x_sort 0 before
    let ghost xs0 = xs@;
    proof { assert(values_of(xs@, arg_0.tokens.special@)); }
  at call x_sort 0 after
    proof { lemma_values_perm(xs0, xs@, arg_0.tokens.special@); }
  at tail
    proof {
      let kws = ents(keywords@);
      let puncts = ents(punctuation@);
      let es = puncts + kws;
      assert(tables_ok(kws, puncts, special@, arg_0.grammar, arg_0.tokens));
      assert(all_toks(keyword_arms.rest()) =~= per(kws.len(), |k: int| keyword_arm(kws[k])));
      assert(all_toks(punctuation_elements.rest()) =~= per(puncts.len(), |k: int| punct_elem(puncts[k])));
      assert(exists|a: Seq<proc_macro2::TokenStream>, os: Seq<Option<proc_macro2::TokenStream>>| #[trigger] (a + somes(os)) == desc_arms.rest()
        && a.len() == es.len() && (forall|k: int| 0 <= k < a.len() ==> (#[trigger] a[k])@ == text_arm(es[k].1, desc_of(es[k])))
        && os.len() == special@.len() && (forall|k: int| 0 <= k < os.len() ==> otoks(#[trigger] os[k]) == given_desc(special@[k])));
      let (a, os) = choose|a: Seq<proc_macro2::TokenStream>, os: Seq<Option<proc_macro2::TokenStream>>| #[trigger] (a + somes(os)) == desc_arms.rest()
        && a.len() == es.len() && (forall|k: int| 0 <= k < a.len() ==> (#[trigger] a[k])@ == text_arm(es[k].1, desc_of(es[k])))
        && os.len() == special@.len() && (forall|k: int| 0 <= k < os.len() ==> otoks(#[trigger] os[k]) == given_desc(special@[k]));
      lemma_somes(os, Seq::new(special@.len(), |k: int| given_desc(special@[k])));
      assert(all_toks(a) =~= per(es.len(), |k: int| text_arm(es[k].1, desc_of(es[k]))));
      assert(all_toks(desc_arms.rest()) =~= all_toks(a) + all_toks(somes(os)));
      assert(all_toks(desc_arms.rest()) == crate::desc_arms(es, special@));
      let all = toks_of(es) + special@;
      assert(exists|os: Seq<Option<proc_macro2::TokenStream>>| #[trigger] somes(os) == doc_arms.rest() && os.len() == all.len()
        && forall|k: int| 0 <= k < os.len() ==> otoks(#[trigger] os[k]) == given_doc(all[k]));
      let os = choose|os: Seq<Option<proc_macro2::TokenStream>>| #[trigger] somes(os) == doc_arms.rest() && os.len() == all.len()
        && forall|k: int| 0 <= k < os.len() ==> otoks(#[trigger] os[k]) == given_doc(all[k]);
      lemma_somes(os, Seq::new(all.len(), |k: int| given_doc(all[k])));
      assert(all_toks(self_trivia.rest()) =~= per(trivia@.len(), |k: int| trivium(views(trivia@)[k])));
      let kinds = all_kinds(views(trivia@), kws, puncts, special@, views(node_syntax_kinds@));
      assert(views(syntax_kinds@) =~= kinds);
      assert(all_toks(syntax_kinds@) =~= ids(kinds));
    }
  closure 0 |$0: (ungrammar::Token, token::Token)| -> (o: (&str, token::Token))
    requires $0.0.0 < grammar.nt()
    ensures o.0@ == grammar.text($0.0), o.1 == $0.1
  closure 1 |$0| -> (o: (Reverse<usize>, &str))
    ensures o.0.0 == utf8_len($0.0@), o.1@ == $0.0@
  closure 2 |$0: &(&str, token::Token)| -> (o: proc_macro2::TokenStream)
    ensures o@ == keyword_arm(($0.0@, $0.1))
  closure 3 |$0: (ungrammar::Token, token::Token)| -> (o: (&str, token::Token))
    requires $0.0.0 < grammar.nt()
    ensures o.0@ == grammar.text($0.0), o.1 == $0.1
  closure 4 |$0| -> (o: (Reverse<usize>, &str))
    ensures o.0.0 == utf8_len($0.0@), o.1@ == $0.0@
  closure 5 |$0: &(&str, token::Token)| -> (o: proc_macro2::TokenStream)
    ensures o@ == punct_elem(($0.0@, $0.1))
  closure 6 |$0: &(&str, token::Token)| -> (o: proc_macro2::TokenStream)
    ensures o@ == text_arm($0.1, desc_of(($0.0@, $0.1)))
  closure 7 || -> (o: String)
    ensures o@ == "`"@ + name@ + "`"@
  closure 8 |$0: &token::Token| -> (o: Option<proc_macro2::TokenStream>)
    ensures otoks(o) == given_desc(*$0)
  closure 9 |$0| -> (o: &token::Token)
    ensures *o == $0.1
  closure 10 |$0: &token::Token| -> (o: Option<proc_macro2::TokenStream>)
    ensures otoks(o) == given_doc(*$0)
  closure 11 |$0: &proc_macro2::Ident| -> (o: proc_macro2::TokenStream)
    ensures o@ == trivium($0@)
  closure 12 |$0: &(&str, token::Token)| -> (o: proc_macro2::Ident)
    ensures o@ == $0.1.name@
//@end
}

// ---------------------------------------------------------------- files (std, syn, prettyplease: external)
pub mod xio { use super::*; use super::proc_macro2::TokenStream;
  #[verifier::external_body]
  pub struct OsString { s: String }
  impl View for OsString { type V = Seq<char>; uninterp spec fn view(&self) -> Seq<char>; }
  #[verifier::external_body]
  pub struct PathBuf { s: String }
  impl View for PathBuf { type V = Seq<char>; uninterp spec fn view(&self) -> Seq<char>; }
  #[verifier::external_body]
  pub struct File { s: String }
  impl View for File { type V = Seq<Tok>; uninterp spec fn view(&self) -> Seq<Tok>; }
  pub struct Error;
  /// an environment variable
  pub uninterp spec fn env(name: Seq<char>) -> Option<Seq<char>>;
  pub uninterp spec fn joined(dir: Seq<char>, name: Seq<char>) -> Seq<char>;
  /// the formatted text of some generated code
  pub uninterp spec fn formatted(ts: Seq<Tok>) -> Seq<char>;
  /// that text was written to that path
  pub uninterp spec fn written(path: Seq<char>, text: Seq<char>) -> bool;
  #[verifier::external_body]
  pub fn var_os(name: &str) -> (r: Option<OsString>) ensures match r { Some(s) => env(name@) == Some(s@), None => env(name@) is None } { unimplemented!() }
  pub struct Path<'a>(pub &'a OsString);
  impl<'a> Path<'a> {
    pub fn new(s: &'a OsString) -> (r: Path<'a>) ensures r.0 == s { Path(s) }
    #[verifier::external_body]
    pub fn join(&self, name: &str) -> (r: PathBuf) ensures r@ == joined(self.0@, name@) { unimplemented!() }
  }
  #[verifier::external_body]
  pub fn parse2(ts: TokenStream) -> (r: Result<File, Error>) ensures r is Ok ==> (r->Ok_0)@ == ts@ { unimplemented!() }
  #[verifier::external_body]
  pub fn unparse(f: &File) -> (r: String) ensures r@ == formatted(f@) { unimplemented!() }
  #[verifier::external_body]
  pub fn write(p: PathBuf, s: String) -> (r: Result<(), Error>) ensures r is Ok ==> written(p@, s@) { unimplemented!() }
}
pub trait ExpectShim<T>: Sized {
  spec fn gives(&self, t: T) -> bool;
  /// `expect`, where it may panic
  fn x_expect(self, m: &str) -> (r: T) ensures self.gives(r);
}
impl<T> ExpectShim<T> for Option<T> {
  open spec fn gives(&self, t: T) -> bool { *self == Some(t) }
  #[verifier::external_body]
  fn x_expect(self, m: &str) -> (r: T) { unimplemented!() }
}
impl<T, E> ExpectShim<T> for Result<T, E> {
  open spec fn gives(&self, t: T) -> bool { *self is Ok && (*self)->Ok_0 == t }
  #[verifier::external_body]
  fn x_expect(self, m: &str) -> (r: T) { unimplemented!() }
}
/// the file `name` of the output directory was written with that code
pub open spec fn wrote(name: Seq<char>, ts: Seq<Tok>) -> bool {
  xio::env("OUT_DIR"@) is Some && xio::written(xio::joined(xio::env("OUT_DIR"@)->0, name), xio::formatted(ts))
}
pub mod write_rs_tokens { use super::*; use super::proc_macro2;
//@splice crates/write-rs-tokens/src/lib.rs
panics may
rewrite `std::env::var_os` => `xio::var_os`
rewrite `std::path::Path` => `xio::Path`
rewrite `syn::parse2` => `xio::parse2`
rewrite `prettyplease::unparse` => `xio::unparse`
rewrite `std::fs::write` => `xio::write`
rewrite `.expect` => `.x_expect`
fn go
  spec
    ensures wrote(basename@, token_stream@),
//@end
}

// ---------------------------------------------------------------- the whole
/// nodes and tokens in the rules of the grammar are the grammar's
pub open spec fn refs_ok(g: ungrammar::Grammar, r: ungrammar::Rule) -> bool decreases r {
  match r {
    ungrammar::Rule::Node(n) => n.0 < g.nodes@.len(),
    ungrammar::Rule::Token(t) => t.0 < g.nt(),
    ungrammar::Rule::Labeled { label: _, rule } => refs_ok(g, *rule),
    ungrammar::Rule::Opt(x) => refs_ok(g, *x),
    ungrammar::Rule::Rep(x) => refs_ok(g, *x),
    _ => true,
  }
}
/// the rules of a node: the items of a sequence, the choices of an alternative, otherwise the one rule
pub open spec fn rules_of(r: ungrammar::Rule) -> Seq<ungrammar::Rule> {
  match r { ungrammar::Rule::Seq(v) => v@, ungrammar::Rule::Alt(v) => v@, _ => seq![r] }
}
pub open spec fn all_refs_ok(g: ungrammar::Grammar, n: int) -> bool {
  forall|k: int| 0 <= k < rules_of(g.nodes@[n].rule).len() ==> refs_ok(g, #[trigger] rules_of(g.nodes@[n].rule)[k])
}
pub open spec fn grammar_ok(g: ungrammar::Grammar) -> bool { forall|n: int| 0 <= n < g.nodes@.len() ==> #[trigger] all_refs_ok(g, n) }
/// what ungrammar's parser makes of a text
pub uninterp spec fn parsed(text: Seq<char>) -> Option<ungrammar::Grammar>;
pub trait ParseShim {
  fn x_parse(&self) -> (r: Result<ungrammar::Grammar, xio::Error>);
}
impl ParseShim for str {
  #[verifier::external_body]
  fn x_parse(&self) -> (r: Result<ungrammar::Grammar, xio::Error>)
    ensures r is Ok ==> parsed(self@) == Some(r->Ok_0) && grammar_ok(r->Ok_0),
  { unimplemented!() }
}
/// `std::slice::from_ref`
#[verifier::external_body]
pub fn x_from_ref<T>(t: &T) -> (r: &[T]) ensures r@ == seq![*t] { unimplemented!() }
pub open spec fn is_alt(g: ungrammar::Grammar, n: int) -> bool { g.nodes@[n].rule is Alt }
pub open spec fn token_alt_at(g: ungrammar::Grammar, n: int) -> bool { is_alt(g, n) && rules_of(g.nodes@[n].rule)[0] is Token }
/// the types of the first `n` nodes that are alternatives
pub open spec fn alt_types(c: G, n: nat) -> Seq<Seq<Tok>> decreases n {
  if n == 0 { Seq::empty() } else {
    let r = alt_types(c, (n - 1) as nat);
    if is_alt(c.g, n - 1) { r.push(c.alt_type(c.g.nodes@[n - 1].name@, rules_of(c.g.nodes@[n - 1].rule))) } else { r }
  }
}
/// the types of the first `n` nodes that are not
pub open spec fn seq_types(c: G, n: nat) -> Seq<Seq<Tok>> decreases n {
  if n == 0 { Seq::empty() } else {
    let r = seq_types(c, (n - 1) as nat);
    if is_alt(c.g, n - 1) { r } else { r.push(c.seq_type(c.g.nodes@[n - 1].name@, rules_of(c.g.nodes@[n - 1].rule))) }
  }
}
/// .. and their names: the node kinds
pub open spec fn node_kinds(g: ungrammar::Grammar, n: nat) -> Seq<Seq<char>> decreases n {
  if n == 0 { Seq::empty() } else {
    let r = node_kinds(g, (n - 1) as nat);
    if is_alt(g, n - 1) { r } else { r.push(g.nodes@[n - 1].name@) }
  }
}
/// `t` has the names of the first `n` nodes that are alternatives of tokens
pub open spec fn token_alts_ok(t: Set<proc_macro2::Ident>, g: ungrammar::Grammar, n: int) -> bool {
  forall|i: proc_macro2::Ident| #[trigger] t.contains(i) <==> exists|k: int| 0 <= k < n && #[trigger] token_alt_at(g, k) && g.nodes@[k].name@ == i@
}
/// both files were written, for the grammar and the tokens of it
pub open spec fn generated(lang: Seq<char>, g: ungrammar::Grammar, db: token::TokenDb, trivia: Seq<Seq<char>>, file: Seq<char>) -> bool {
  &&& exists|c: G| #[trigger] context(c, lang, g, db) && wrote("ast.rs"@, ast_file(lang, alt_types(c, g.nodes@.len()) + seq_types(c, g.nodes@.len()), file))
  &&& exists|ts: Seq<Tok>| #[trigger] kind_ok(ts, lang, g, db, trivia, node_kinds(g, g.nodes@.len()), file) && wrote("kind.rs"@, ts)
}
pub open spec fn context(c: G, lang: Seq<char>, g: ungrammar::Grammar, db: token::TokenDb) -> bool {
  c.lang == lang && c.g == g && c.db == db && token_alts_ok(c.talts, g, g.nodes@.len() as int)
}
pub open spec fn strs(v: Seq<&str>) -> Seq<Seq<char>> { Seq::new(v.len(), |i: int| v[i]@) }
proof fn lemma_alt_types(c: G, d: G, n: nat) requires c.g == d.g, c.lang == d.lang, c.db == d.db ensures alt_types(c, n) == alt_types(d, n) decreases n {
  if n > 0 { lemma_alt_types(c, d, (n - 1) as nat);
    if is_alt(c.g, n - 1) { let name = c.g.nodes@[n - 1].name@; let rules = rules_of(c.g.nodes@[n - 1].rule); lemma_alt_type(c, d, name, rules); } }
}
proof fn lemma_alt_type(c: G, d: G, name: Seq<char>, rules: Seq<ungrammar::Rule>) requires c.g == d.g, c.lang == d.lang, c.db == d.db ensures c.alt_type(name, rules) == d.alt_type(name, rules) {
  assert(per(rules.len(), |k: int| node_def(id(node_name(c, rules[k])))) =~= per(rules.len(), |k: int| node_def(id(node_name(d, rules[k])))));
  assert(per(rules.len(), |k: int| node_kind(id(node_name(c, rules[k])))) =~= per(rules.len(), |k: int| node_kind(id(node_name(d, rules[k])))));
  assert(per(rules.len(), |k: int| node_cast(id(node_name(c, rules[k])))) =~= per(rules.len(), |k: int| node_cast(id(node_name(d, rules[k])))));
  assert(per(rules.len(), |k: int| node_syntax(id(node_name(c, rules[k])))) =~= per(rules.len(), |k: int| node_syntax(id(node_name(d, rules[k])))));
  let kind = id(no_raw(name) + "Kind"@);
  assert(per(rules.len(), |k: int| tok_def(id(tok_name(c, rules[k])))) =~= per(rules.len(), |k: int| tok_def(id(tok_name(d, rules[k])))));
  assert(per(rules.len(), |k: int| tok_cast(id(tok_name(c, rules[k])), kind)) =~= per(rules.len(), |k: int| tok_cast(id(tok_name(d, rules[k])), kind)));
  assert(per(rules.len(), |k: int| tok_str(id(tok_name(c, rules[k])), st(tok_text(c, rules[k])))) =~= per(rules.len(), |k: int| tok_str(id(tok_name(d, rules[k])), st(tok_text(d, rules[k])))));
}
proof fn lemma_wf_field(c: G, r: ungrammar::Rule, doc: Map<&str, &str>, special: Map<&str, &str>)
  requires refs_ok(c.g, r), c.db.ok(&c.g, doc, special) ensures c.wf_field(r) decreases r
{
  match r {
    ungrammar::Rule::Token(t) => { assert(class_of(c.g.text(t), special) is Special || class_of(c.g.text(t), special) is Keyword || class_of(c.g.text(t), special) is Punctuation); }
    ungrammar::Rule::Labeled { label: _, rule } => lemma_wf_field(c, *rule, doc, special),
    ungrammar::Rule::Opt(x) => lemma_wf_field(c, *x, doc, special),
    ungrammar::Rule::Rep(x) => lemma_wf_field(c, *x, doc, special),
    _ => {}
  }
}
proof fn lemma_wf_fields(c: G, n: int, doc: Map<&str, &str>, special: Map<&str, &str>)
  requires grammar_ok(c.g), c.db.ok(&c.g, doc, special), 0 <= n < c.g.nodes@.len(),
  ensures c.wf_fields(rules_of(c.g.nodes@[n].rule)),
{
  let rules = rules_of(c.g.nodes@[n].rule);
  assert(all_refs_ok(c.g, n));
  assert forall|k: int| 0 <= k < rules.len() implies #[trigger] c.wf_field(rules[k]) by { lemma_wf_field(c, rules[k], doc, special); }
}
pub mod syntax_gen { use super::*; use super::util::Cx; use super::fast_hash::*; use super::ungrammar::{Grammar, Rule}; use super::seq::keys_ok;
  broadcast use group_tree;
//@splice crates/syntax-gen/src/lib.rs
panics may
rewrite `.expect` => `.x_expect`
rewrite `.parse` => `.x_parse`
rewrite `std::slice::from_ref` => `x_from_ref`
attr struct Options #[verifier::reject_recursive_types(S)]
rewrite `.map` => `.x_map`
rewrite `.collect` => `.x_collect`
fn get
  spec
    requires keys_ok(), builds_valid_hashers::<S>(),
    ensures exists|g: Grammar, db: token::TokenDb| parsed(opts.grammar@) == Some(g) && #[trigger] db.ok(&g, opts.doc@, opts.special@)
      && generated(opts.lang@, g, db, strs(opts.trivia@), opts.file@),
  at loop 0 before
    let ghost g = cx.grammar;
    let ghost db = cx.tokens;
    let ghost n = g.nodes@.len();
    proof { assert(cx.grammar.nodes.len() == n); }
  loop 0 it0 wrap=manual
    invariant keys_ok(), cx.grammar == g, cx.tokens == db, cx.lang == lang, grammar_ok(g), db.ok(&g, opts.doc@, opts.special@), n == g.nodes@.len(),
      it0.seq() == Seq::new(n, |i: int| ungrammar::Node(i as usize)), it0.pos() <= n <= usize::MAX,
      all_toks(types@) == alt_types(cx.gg(), it0.pos()),
      token_alts_ok(token_alts@, g, it0.pos() as int),
      node_syntax_kinds@.len() == 0,
    ensures it0.pos() == n,
    decreases n - it0.pos(),
  at first
    hide(G::alt_type); hide(G::seq_type); hide(ast_file); hide(kind_file); hide(kind_ok);
  at loop 0 after
    let ghost c0 = cx.gg();
  at loop 1 before
    let ghost c = cx.gg();
    proof { lemma_alt_types(c0, c, n); assert(all_toks(types@) =~= alt_types(c, n) + seq_types(c, 0)); }
  loop 1 it1 wrap=manual
    invariant keys_ok(), cx.gg() == c, cx.grammar == g, cx.tokens == db, cx.lang == lang, grammar_ok(g), db.ok(&g, opts.doc@, opts.special@), n == g.nodes@.len(),
      it1.seq() == Seq::new(n, |i: int| ungrammar::Node(i as usize)), it1.pos() <= n <= usize::MAX,
      all_toks(types@) == alt_types(c, n) + seq_types(c, it1.pos()),
      token_alts_ok(c.talts, g, n as int),
      views(node_syntax_kinds@) == node_kinds(g, it1.pos()),
    ensures it1.pos() == n,
    decreases n - it1.pos(),
  at loop 0 start
    let ghost k = it0.pos() - 1;
    let ghost talts0 = token_alts@;
    let ghost types0 = types@;
    proof { assert(node == ungrammar::Node(k as usize)); lemma_wf_fields(cx.gg(), k, opts.doc@, opts.special@); }
  at loop 1 start
    let ghost k = it1.pos() - 1;
    let ghost types1 = types@;
    let ghost kinds1 = node_syntax_kinds@;
    proof { assert(node == ungrammar::Node(k as usize)); lemma_wf_fields(cx.gg(), k, opts.doc@, opts.special@); }
  at loop 0 end
    proof { assert(all_toks(types@) =~= alt_types(cx.gg(), it0.pos()));
      assert(token_alt_at(g, k) == (rules@[0] is Token));
      assert forall|i: proc_macro2::Ident| #[trigger] token_alts@.contains(i) <==> exists|j: int| 0 <= j < k + 1 && #[trigger] token_alt_at(g, j) && g.nodes@[j].name@ == i@ by {
        if token_alts@.contains(i) && !talts0.contains(i) { assert(token_alt_at(g, k) && g.nodes@[k].name@ == i@); }
        if talts0.contains(i) { let j = choose|j: int| 0 <= j < k && #[trigger] token_alt_at(g, j) && g.nodes@[j].name@ == i@; assert(token_alts@.contains(i)); }
        if exists|j: int| 0 <= j < k + 1 && #[trigger] token_alt_at(g, j) && g.nodes@[j].name@ == i@ {
          let j = choose|j: int| 0 <= j < k + 1 && #[trigger] token_alt_at(g, j) && g.nodes@[j].name@ == i@;
          if j < k { assert(talts0.contains(i)); }
        }
      } }
  at loop 1 end
    proof { assert(rules@ == rules_of(g.nodes@[k].rule));
      assert(seq_types(c, it1.pos()) == seq_types(c, k as nat).push(c.seq_type(g.nodes@[k].name@, rules@)));
      assert(all_toks(types@) =~= all_toks(types1).push(c.seq_type(g.nodes@[k].name@, rules@)));
      assert(all_toks(types@) =~= alt_types(c, n) + seq_types(c, it1.pos()));
      assert(views(node_syntax_kinds@) =~= node_kinds(g, it1.pos())); }
  closure 0 |$0: &&str| -> (o: proc_macro2::Ident)
    ensures o@ == $0@
  at end
    proof {
      assert(context(c, opts.lang@, g, db));
      assert(views(trivia@) =~= strs(opts.trivia@));
      assert(wrote("ast.rs"@, ast_file(opts.lang@, alt_types(c, n) + seq_types(c, n), opts.file@)));
    }
//@end
}
}
fn main() {}
