//@canary
broadcast use {vstd::std_specs::hash::group_hash_axioms, xstd::group_xstd};
global size_of usize == 8;

// ---------------------------------------------------------------- rustc_hash (external): only the types
pub mod fast_hash { use super::*;
  pub struct FxBuildHasher;
  #[verifier::external]
  impl BuildHasher for FxBuildHasher { type Hasher = std::hash::DefaultHasher; fn build_hasher(&self) -> Self::Hasher { unimplemented!() } }
  #[verifier::external]
  impl Default for FxBuildHasher { fn default() -> Self { unimplemented!() } }
  #[verifier::external]
  impl Clone for FxBuildHasher { fn clone(&self) -> Self { unimplemented!() } }
  pub type FxHashMap<K, V> = HashMap<K, V, FxBuildHasher>;
  pub type FxHashSet<K> = HashSet<K, FxBuildHasher>;
}

pub assume_specification<T, F: FnOnce() -> Option<T>> [Option::<T>::or_else] (o: Option<T>, f: F) -> (r: Option<T>)
  requires o is None ==> call_requires(f, ()),
  ensures o is Some ==> r == o, o is None ==> call_ensures(f, (), r);
pub trait AnyShim: Iterator + Sized {
  /// `Iterator::any` on an iterator that is done with afterwards
  #[verifier::external_body]
  fn x_any<F: FnMut(Self::Item) -> bool>(self, f: F) -> (r: bool)
    requires self.obeys_prophetic_iter_laws(), self.decrease() is Some, forall|i: int| 0 <= i < self.remaining().len() ==> call_requires(f, (#[trigger] self.remaining()[i],)),
    ensures
      r ==> exists|i: int| 0 <= i < self.remaining().len() && call_ensures(f, (#[trigger] self.remaining()[i],), true),
      !r ==> forall|i: int| 0 <= i < self.remaining().len() ==> call_ensures(f, (#[trigger] self.remaining()[i],), false),
  { unimplemented!() }
}
impl<I: Iterator> AnyShim for I {}
// ---------------------------------------------------------------- proc-macro2, quote (external)
/// A piece of generated code: the tokens of a template (as text), or something interpolated
pub enum Tok { Text(Seq<char>), Id(Seq<char>), Str(Seq<char>), Bytes(Seq<u8>), Num(int) }
pub mod proc_macro2 { use super::*;
  #[verifier::external_body]
  #[derive(PartialEq, Eq, Hash)]
  pub struct Ident { s: String }
  impl vstd::std_specs::cmp::PartialEqSpecImpl<str> for Ident {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &str) -> bool { self@ == o@ }
  }
  impl PartialEq<str> for Ident {
    #[verifier::external_body]
    fn eq(&self, o: &str) -> (r: bool) { unimplemented!() }
  }
  impl Clone for Ident {
    #[verifier::external_body]
    fn clone(&self) -> (r: Ident) ensures r == *self { unimplemented!() }
  }
  impl View for Ident { type V = Seq<char>; uninterp spec fn view(&self) -> Seq<char>; }
  #[verifier::external_body]
  pub struct TokenStream { s: String }
  impl View for TokenStream { type V = Seq<Tok>; uninterp spec fn view(&self) -> Seq<Tok>; }
  #[verifier::external_body]
  pub struct Literal { s: String }
  impl View for Literal { type V = Tok; uninterp spec fn view(&self) -> Tok; }
  impl Literal {
    #[verifier::external_body]
    pub fn byte_string(b: &[u8]) -> (r: Literal) ensures r@ == Tok::Bytes(b@) { unimplemented!() }
  }
  impl TokenStream {
    #[verifier::external_body]
    pub fn new() -> (r: TokenStream) ensures r@ == Seq::<Tok>::empty() { unimplemented!() }
    /// literal tokens of a template
    #[verifier::external_body]
    pub fn lit(&mut self, s: &'static str) ensures final(self)@ == old(self)@.push(Tok::Text(s@)) { unimplemented!() }
    /// an interpolated value
    #[verifier::external_body]
    pub fn put<T: ToToks + ?Sized>(&mut self, t: &T) ensures final(self)@ == old(self)@.add(t.toks()) { unimplemented!() }
  }
  /// equality of identifiers is equality of their text
  pub broadcast axiom fn axiom_ident_ext(a: Ident, b: Ident) ensures #[trigger] a.view() == #[trigger] b.view() ==> a == b;
}
pub trait ToToks { spec fn toks(&self) -> Seq<Tok>; }
impl<T: ToToks + ?Sized> ToToks for &T { open spec fn toks(&self) -> Seq<Tok> { (**self).toks() } }
impl ToToks for proc_macro2::Ident { open spec fn toks(&self) -> Seq<Tok> { seq![Tok::Id(self@)] } }
impl ToToks for proc_macro2::TokenStream { open spec fn toks(&self) -> Seq<Tok> { self@ } }
impl ToToks for proc_macro2::Literal { open spec fn toks(&self) -> Seq<Tok> { seq![self@] } }
impl ToToks for str { open spec fn toks(&self) -> Seq<Tok> { seq![Tok::Str(self@)] } }
impl ToToks for String { open spec fn toks(&self) -> Seq<Tok> { seq![Tok::Str(self@)] } }
impl ToToks for usize { open spec fn toks(&self) -> Seq<Tok> { seq![Tok::Num(*self as int)] } }
/// what `format_ident!` makes of its arguments (a `r#` in front of an identifier is left out)
pub trait IdentFragment { spec fn frag(&self) -> Seq<char>; }
impl<T: IdentFragment + ?Sized> IdentFragment for &T { open spec fn frag(&self) -> Seq<char> { (**self).frag() } }
impl IdentFragment for str { open spec fn frag(&self) -> Seq<char> { self@ } }
impl IdentFragment for String { open spec fn frag(&self) -> Seq<char> { self@ } }
pub open spec fn no_raw(s: Seq<char>) -> Seq<char> { if s.len() >= 2 && s[0] == 'r' && s[1] == '#' { s.skip(2) } else { s } }
impl IdentFragment for proc_macro2::Ident { open spec fn frag(&self) -> Seq<char> { no_raw(self@) } }
#[verifier::external_body]
pub fn x_push_ident_arg<T: IdentFragment + ?Sized>(s: &mut String, t: &T) ensures final(s)@ == old(s)@ + t.frag() { unimplemented!() }
/// panics where the text is no identifier
#[verifier::external_body]
pub fn x_mk_ident(s: String) -> (r: proc_macro2::Ident) ensures r@ == s@ { unimplemented!() }
// ---------------------------------------------------------------- ungrammar (external)
pub mod ungrammar { use super::*;
  #[derive(Clone, Copy, PartialEq, Eq, Hash)]
  pub struct Node(pub usize);
  #[derive(Clone, Copy, PartialEq, Eq, Hash)]
  pub struct Token(pub usize);
  pub struct TokenData { pub name: String }
  pub struct NodeData { pub name: String, pub rule: Rule }
  pub enum Rule {
    Labeled { label: String, rule: Box<Rule> },
    Node(Node),
    Token(Token),
    Seq(Vec<Rule>),
    Alt(Vec<Rule>),
    Opt(Box<Rule>),
    Rep(Box<Rule>),
  }
  pub struct Grammar { pub nodes: Vec<NodeData>, pub toks: Vec<TokenData> }
  impl Grammar {
    pub open spec fn nt(&self) -> nat { self.toks@.len() }
    /// the text of a token
    pub open spec fn text(&self, t: Token) -> Seq<char> { self.toks@[t.0 as int].name@ }
    /// each token once
    #[verifier::external_body]
    pub fn tokens(&self) -> (r: XIter<Token>)
      ensures r.rest() == Seq::new(self.nt(), |i: int| Token(i as usize))
    { unimplemented!() }
    #[verifier::external_body]
    pub fn iter(&self) -> (r: XIter<Node>)
      ensures r.rest() == Seq::new(self.nodes@.len(), |i: int| Node(i as usize))
    { unimplemented!() }
  }
  impl vstd::std_specs::core::IndexSpecImpl<Token> for Grammar { open spec fn index_req(&self, t: &Token) -> bool { t.0 < self.nt() } }
  impl core::ops::Index<Token> for Grammar {
    type Output = TokenData;
    fn index(&self, t: Token) -> (r: &TokenData)
      ensures *r == self.toks@[t.0 as int],
    { &self.toks[t.0] }
  }
  impl vstd::std_specs::core::IndexSpecImpl<Node> for Grammar { open spec fn index_req(&self, t: &Node) -> bool { t.0 < self.nodes@.len() } }
  impl core::ops::Index<Node> for Grammar {
    type Output = NodeData;
    fn index(&self, t: Node) -> (r: &NodeData)
      ensures *r == self.nodes@[t.0 as int],
    { &self.nodes[t.0] }
  }
}

// ---------------------------------------------------------------- identifier-case, char-name
/// what `snake_to_pascal` makes of `s`; `cap`: the next character starts a word
pub open spec fn pas(s: Seq<char>, cap: bool) -> Seq<char> decreases s.len() {
  if s.len() == 0 { Seq::empty() }
  else if s[0] == '_' { pas(s.skip(1), true) }
  else { seq![if cap { up(s[0]) } else { low(s[0]) }] + pas(s.skip(1), false) }
}
/// what `pascal_to_snake` makes of `s`; `first`: at the start
pub open spec fn snk(s: Seq<char>, first: bool) -> Seq<char> decreases s.len() {
  if s.len() == 0 { Seq::empty() }
  else { (if is_up(s[0]) && !first { seq!['_'] } else { Seq::empty() }) + seq![low(s[0])] + snk(s.skip(1), false) }
}
pub mod identifier_case { use super::*;
//@splice crates/identifier-case/src/lib.rs
fn snake_to_pascal
  ret r
  spec
    ensures r@ == pas(s@, true),
  loop 0 it
    invariant it.iter.obeys_prophetic_iter_laws(), it.iter.decrease() is Some, it.seq() == s@,
      ret@ + pas(s@.skip(it.index@ as int), is_cap) =~= pas(s@, true),
  at loop 0 before
    proof { assert(s@.skip(0) =~= s@); }
  at loop 0 start
    proof { assert(s@.skip(it.index@ as int).skip(1) =~= s@.skip(it.index@ as int + 1)); }
fn pascal_to_snake
  ret r
  spec
    ensures r@ == snk(s@, true),
  at start
    proof { assert(s@.skip(0) =~= s@); }
  at loop 0 before
    let ghost k = s@.len() - cs.remaining().len();
    proof { assert(cs.remaining().skip(0) =~= cs.remaining()); if s@.len() > 0 { assert(s@.skip(1).len() == s@.len() - 1); } }
  loop 0 it
    invariant it.iter.obeys_prophetic_iter_laws(), it.iter.decrease() is Some, it.seq() == s@.skip(k as int),
      0 <= k <= s@.len(),
      ret@ + snk(it.seq().skip(it.index@ as int), false) =~= snk(s@, true),
  at loop 0 start
    proof { assert(it.seq().skip(it.index@ as int).skip(1) =~= it.seq().skip(it.index@ as int + 1)); }
//@end
}
pub mod char_name { use super::*;
//@spec-copy crates/char-name/src/lib.rs get_opt char_name(c: char) -> Option<Seq<char>>
//@splice crates/char-name/src/lib.rs
panics may
fn get_opt
  ret r
  spec
    ensures match r { Some(s) => char_name(c) == Some(s@), None => char_name(c) is None },
fn get
  ret r
  spec
    ensures char_name(c) == Some(r@),
//@end
}

// ---------------------------------------------------------------- tokens
/// what a map from texts has for a text
pub open spec fn tget<'a>(m: Map<&'a str, &'a str>, s: Seq<char>) -> Option<Seq<char>> {
  if exists|k: &'a str| #[trigger] m.contains_key(k) && k@ == s { Some(m[choose|k: &'a str| #[trigger] m.contains_key(k) && k@ == s]@) } else { None }
}
/// Assumed of `HashMap<&str, _>::get`: a key is found by its text
pub broadcast axiom fn axiom_str_contains<'a>(m: Map<&'a str, &'a str>, k: &str)
  ensures #[trigger] contains_borrowed_key(m, k) <==> tget(m, k@) is Some;
pub broadcast axiom fn axiom_str_maps<'a>(m: Map<&'a str, &'a str>, k: &str, v: &'a str)
  ensures #[trigger] maps_borrowed_key_to_value(m, k, v) ==> tget(m, k@) == Some(v@);
pub broadcast group group_str { axiom_str_contains, axiom_str_maps }

pub open spec fn has_letter(s: Seq<char>) -> bool { exists|i: int| 0 <= i < s.len() && (is_up(#[trigger] s[i]) || is_low(s[i])) }
/// the names of the characters, one after the other
pub open spec fn char_names(s: Seq<char>) -> Seq<char> decreases s.len() {
  if s.len() == 0 { Seq::empty() } else { char_names(s.drop_last()) + char_name::char_name(s.last())->0 }
}
pub enum Class { Special, Keyword, Punctuation }
pub open spec fn class_of(text: Seq<char>, special: Map<&str, &str>) -> Class {
  if tget(special, text) is Some { Class::Special } else if has_letter(text) { Class::Keyword } else { Class::Punctuation }
}
pub open spec fn name_of(text: Seq<char>, special: Map<&str, &str>) -> Seq<char> {
  match class_of(text, special) {
    Class::Special => text,
    Class::Keyword => pas(text, true) + "Kw"@,
    Class::Punctuation => char_names(text),
  }
}
pub open spec fn ostr(o: Option<String>) -> Option<Seq<char>> { match o { Some(s) => Some(s@), None => None } }
pub mod token { use super::*; use super::ungrammar; use crate::fmt::Display as _; use super::fast_hash::*; broadcast use group_str;
pub open spec fn token_ok(tok: Token, text: Seq<char>, doc: Map<&str, &str>, special: Map<&str, &str>) -> bool {
  &&& tok.name@ == name_of(text, special)
  &&& ostr(tok.desc) == tget(special, text)
  &&& ostr(tok.doc) == tget(doc, text)
}
/// `m` has exactly those of the first `n` tokens that are of class `c`, each made rightly
pub open spec fn class_ok(m: Map<ungrammar::Token, Token>, c: Class, n: int, g: &ungrammar::Grammar, doc: Map<&str, &str>, special: Map<&str, &str>) -> bool {
  &&& forall|t: ungrammar::Token| #[trigger] m.contains_key(t) <==> t.0 < n && class_of(g.text(t), special) == c
  &&& forall|t: ungrammar::Token| #[trigger] m.contains_key(t) ==> token_ok(m[t], g.text(t), doc, special)
}
//@splice crates/syntax-gen/src/token.rs
expand-fmt
rewrite `.any` => `.x_any`
inject impl TokenDb
  pub open spec fn ok(&self, g: &ungrammar::Grammar, doc: Map<&str, &str>, special: Map<&str, &str>) -> bool {
    &&& class_ok(self.punctuation@, Class::Punctuation, g.nt() as int, g, doc, special)
    &&& class_ok(self.keywords@, Class::Keyword, g.nt() as int, g, doc, special)
    &&& class_ok(self.special@, Class::Special, g.nt() as int, g, doc, special)
  }
fn ident
  ret r
  spec
    ensures r@ == s@,
fn Token::name_ident
  ret r
  spec
    ensures r@ == self.name@,
fn TokenDb::new
  ret r
  spec
    requires obeys_key_model::<&str>(), builds_valid_hashers::<S>(), obeys_key_model::<ungrammar::Token>(), builds_valid_hashers::<fast_hash::FxBuildHasher>(),
    ensures r.ok(grammar, doc@, special_desc@),
  loop 0 it
    invariant it.iter.obeys_prophetic_iter_laws(), it.iter.decrease() is Some, it.seq() == Seq::new(grammar.nt(), |i: int| ungrammar::Token(i as usize)),
      obeys_key_model::<&str>(), builds_valid_hashers::<S>(), obeys_key_model::<ungrammar::Token>(), builds_valid_hashers::<fast_hash::FxBuildHasher>(),
      grammar.nt() <= usize::MAX,
      class_ok(punctuation@, Class::Punctuation, it.index@ as int, grammar, doc@, special_desc@),
      class_ok(keywords@, Class::Keyword, it.index@ as int, grammar, doc@, special_desc@),
      class_ok(special@, Class::Special, it.index@ as int, grammar, doc@, special_desc@),
  at start
    assert(grammar.toks.len() == grammar.toks@.len());
  at loop 0 start
    assert(token.0 == it.index@);
  at loop 1 before
    proof { assert(orig_name@.take(0) =~= Seq::empty()); }
  at loop 1 start
    proof { assert(orig_name@.take(it2.index@ + 1).drop_last() =~= orig_name@.take(it2.index@ as int)); }
  at loop 1 after
    proof { assert(orig_name@.take(orig_name@.len() as int) =~= orig_name@); }
  closure 0 |$0| -> (o: bool)
    ensures o == (is_up($0) || is_low($0))
  closure 1 |$0| -> (o: String)
    ensures o@ == $0@
  loop 1 it2
    invariant it2.iter.obeys_prophetic_iter_laws(), it2.iter.decrease() is Some, it2.seq() == orig_name@,
      name@ == char_names(orig_name@.take(it2.index@ as int)),
fn TokenDb::get
  ret r
  closure 0 || -> (o: Option<&Token>)
    ensures match o { Some(v) => self.punctuation@.contains_key(token) && *v == self.punctuation@[token], None => !self.punctuation@.contains_key(token) }
  closure 1 || -> (o: Option<&Token>)
    ensures match o { Some(v) => self.keywords@.contains_key(token) && *v == self.keywords@[token], None => !self.keywords@.contains_key(token) }
  closure 2 || -> (o: Option<&Token>)
    ensures match o { Some(v) => self.special@.contains_key(token) && *v == self.special@[token], None => !self.special@.contains_key(token) }
  closure 3 || -> (o: &Token)
    requires false
  spec
    requires obeys_key_model::<ungrammar::Token>(), builds_valid_hashers::<fast_hash::FxBuildHasher>(),
      self.punctuation@.contains_key(token) || self.keywords@.contains_key(token) || self.special@.contains_key(token),
    ensures
      self.punctuation@.contains_key(token) ==> *r == self.punctuation@[token],
      !self.punctuation@.contains_key(token) && self.keywords@.contains_key(token) ==> *r == self.keywords@[token],
      !self.punctuation@.contains_key(token) && !self.keywords@.contains_key(token) ==> *r == self.special@[token],
//@end
}
