//! Oracles for syntax-gen: generates grammars, runs the real generator on each, compiles what it wrote together with a
//! test program made from the grammar alone, and runs that.

use replay_common::{main as run_main, msg, Rng, Run};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::fmt::Write as _;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::process::Command;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Class {
  Special,
  Keyword,
  Punctuation,
}

#[derive(Clone, Debug)]
struct Tok {
  text: String,
  class: Class,
  name: String,
  desc: Option<String>,
  doc: Option<String>,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Modi {
  One,
  Opt,
  Rep,
}

#[derive(Clone, Debug)]
struct Field {
  label: Option<String>,
  base: String,
  is_token: bool,
  modi: Modi,
  accessor: String,
  idx: usize,
}

#[derive(Clone, Debug)]
enum Rule {
  Seq(Vec<Field>),
  Nodes(Vec<String>),
  Tokens(Vec<String>),
}

struct Gram {
  toks: Vec<Tok>,
  nodes: Vec<(String, Rule)>,
  trivia: Vec<&'static str>,
  doc: HashMap<String, String>,
  special: HashMap<String, String>,
  text: String,
}

fn pascal(s: &str) -> String {
  let mut r = String::new();
  let mut cap = true;
  for c in s.chars() {
    if c == '_' {
      cap = true;
    } else {
      r.push(if cap { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() });
      cap = false;
    }
  }
  r
}

fn snake(s: &str) -> String {
  let mut r = String::new();
  for (i, c) in s.chars().enumerate() {
    if i > 0 && c.is_ascii_uppercase() {
      r.push('_');
    }
    r.push(c.to_ascii_lowercase());
  }
  r
}

const WORDS: &[&str] = &[
  "if", "then", "else", "while", "let_in", "endIf", "_foo", "a_b_c", "IF_X", "mod2", "x1_y2", "do", "Z", "q", "DONE__now", "val", "of_", "fn",
];
const CHARS: &[char] = &[
  '_', '-', ',', ';', ':', '!', '?', '.', '(', ')', '[', ']', '{', '}', '*', '/', '&', '#', '%', '^', '+', '<', '=', '>', '|', '~', '`', '$', '@',
];
const SPECIALS: &[&str] = &["Name", "IntLit", "String_lit", "__", "x", "lowercase", "_a", "ABC"];
const NODES: &[&str] = &["Exp", "Pat", "Ty", "Dec", "TopDec", "AppExp", "Arg", "SpecExp", "X", "LongName", "RowField", "ABCd", "IntConst", "Zed"];
const AWKWARD: &[&str] = &["", " ", "ends in a line\n", "two  spaces ", " starts with one", "a\nb\n\nc", "tab\tand \\ and {} \r", "é 語"];
const LABELS: &[&str] = &["lhs", "rhs", "cond", "the_name", "left_over", "second", "b"];

fn usable_label(t: &str) -> bool {
  t.chars().all(|c| c.is_ascii_alphabetic() || c == '_')
    && t.chars().any(|c| c != '_')
    && !["if", "else", "while", "do", "fn", "let", "match", "mod", "use", "type", "self", "Self"].contains(&t)
}

fn quoted(t: &str) -> String {
  format!("'{t}'")
}

fn gen(rng: &mut Rng) -> Gram {
  // tokens
  let mut toks: Vec<Tok> = Vec::new();
  let mut names = BTreeSet::<String>::new();
  let mut texts = BTreeSet::<String>::new();
  let trivia: Vec<&'static str> = {
    let all = ["Whitespace", "BlockComment", "Invalid"];
    let n = 1 + rng.below(3);
    all[..n].to_vec()
  };
  for n in all_idents() {
    names.insert(n);
  }
  let mut doc = HashMap::new();
  let mut special = HashMap::new();
  let big = rng.chance(1, 6);
  let (nk, np, ns) = if big {
    (rng.below(60), rng.below(60), rng.below(20))
  } else {
    (rng.below(6), rng.below(9), rng.below(4))
  };
  for k in 0..nk + np + ns {
    for _ in 0..20 {
      let (text, class) = if k < nk {
        let mut w = (*rng.pick(WORDS)).to_owned();
        if rng.chance(1, if big { 2 } else { 12 }) {
          w.push_str(if rng.chance(1, 3) { "_" } else { "" });
          for _ in 0..1 + rng.below(12) {
            w.push(char::from(b'a' + rng.below(26) as u8));
          }
        }
        (w, Class::Keyword)
      } else if k < nk + np {
        let l = 1 + if rng.chance(1, 8) { rng.below(14) } else { rng.below(3) };
        let same = rng.chance(1, 4);
        let c = *rng.pick(CHARS);
        ((0..l).map(|_| if same { c } else { *rng.pick(CHARS) }).collect::<String>(), Class::Punctuation)
      } else {
        let mut w = (*rng.pick(SPECIALS)).to_owned();
        if big && rng.chance(1, 2) {
          w.push_str(rng.pick(WORDS));
        }
        (w, Class::Special)
      };
      let name = match class {
        Class::Special => text.clone(),
        Class::Keyword => format!("{}Kw", pascal(&text)),
        Class::Punctuation => text.chars().map(char_name::get).collect(),
      };
      if texts.contains(&text) || !names.insert(name.clone()) {
        continue;
      }
      texts.insert(text.clone());
      let desc = (class == Class::Special).then(|| match rng.below(6) {
        // also what other tokens are called, and texts that are no tidy words
        0 if !toks.is_empty() => {
          let t = rng.pick(&toks);
          if rng.chance(1, 2) { t.text.clone() } else { t.name.clone() }
        }
        1 => (*rng.pick(AWKWARD)).to_owned(),
        _ => format!("desc {} \"q\"", rng.below(5)),
      });
      let d = rng.chance(1, 2).then(|| match rng.below(4) {
        0 => (*rng.pick(AWKWARD)).to_owned(),
        _ => format!("doc of {} n{}", text.len(), rng.below(9)),
      });
      if let Some(d) = &d {
        doc.insert(text.clone(), d.clone());
      }
      if let Some(d) = &desc {
        special.insert(text.clone(), d.clone());
      }
      toks.push(Tok { text, class, name, desc, doc: d });
      break;
    }
  }
  if toks.is_empty() {
    toks.push(Tok { text: "let".into(), class: Class::Keyword, name: "LetKw".into(), desc: None, doc: None });
  }
  // docs for names, descriptions and quoted texts of tokens, which are no tokens themselves
  let mut others: Vec<String> = Vec::new();
  for t in &toks {
    others.extend([t.name.clone(), quoted(&t.text), t.text.trim_start_matches('$').to_owned(), t.text.to_lowercase()]);
    others.extend(t.desc.clone());
  }
  for t in others {
    if !texts.contains(&t) && rng.chance(1, 4) {
      doc.insert(t, "the doc of no token".to_owned());
    }
  }
  // entries for texts that are no tokens
  if rng.chance(1, 2) {
    doc.insert("nothing".into(), "no such token".into());
    special.insert("NoSuchToken".into(), "no such token".into());
  }
  // nodes: first plain ones, then alternatives over them
  let mut pool: Vec<&str> = NODES.to_vec();
  rng.shuffle(&mut pool);
  let nplain = 1 + rng.below(6);
  let plain: Vec<String> = std::iter::once("Root".to_owned()).chain(pool.drain(..nplain).map(str::to_owned)).collect();
  let mut alts: Vec<(String, Rule)> = Vec::new();
  for _ in 0..rng.below(3) {
    let mut xs = plain.clone();
    rng.shuffle(&mut xs);
    xs.truncate(2 + rng.below(xs.len() - 1));
    if xs.len() >= 2 {
      alts.push((pool.pop().unwrap().to_owned(), Rule::Nodes(xs)));
    }
  }
  for _ in 0..rng.below(3) {
    let mut xs: Vec<String> = toks.iter().map(|t| t.text.clone()).collect();
    rng.shuffle(&mut xs);
    if xs.len() >= 2 {
      xs.truncate(2 + rng.below(xs.len() - 1));
      alts.push((pool.pop().unwrap().to_owned(), Rule::Tokens(xs)));
    }
  }
  let mut nodes: Vec<(String, Rule)> = Vec::new();
  let mut mentioned = BTreeSet::<String>::new();
  for p in &plain {
    let mut fields: Vec<Field> = Vec::new();
    let mut taken: BTreeSet<String> = ["syntax", "cast", "can_cast", "fn", "fmt", "clone"].iter().map(|s| (*s).to_owned()).collect();
    let mut last: Option<(String, bool)> = None;
    let most = match rng.below(25) {
      0 => 40,
      1..=5 => 1,
      _ => 7,
    };
    for _ in 0..1 + rng.below(most) {
      for _ in 0..12 {
        let (base, is_token) = match &last {
          // the same child again
          Some(l) if rng.chance(2, 5) => l.clone(),
          _ => match rng.below(4) {
            0 if !alts.is_empty() => (rng.pick(&alts).0.clone(), false),
            1 => (rng.pick(&plain).clone(), false),
            _ => (rng.pick(&toks).text.clone(), true),
          },
        };
        let modi = match rng.below(4) {
          0 => Modi::Opt,
          1 => Modi::Rep,
          _ => Modi::One,
        };
        let label = rng.chance(2, 5).then(|| match rng.below(4) {
          // the text of a token
          0 => Some(rng.pick(&toks).text.clone()).filter(|t| usable_label(t)).unwrap_or_else(|| (*rng.pick(LABELS)).to_owned()),
          // what another child's accessor could be called
          1 => format!("{}{}", snake(rng.pick(&plain)), if rng.chance(1, 2) { "s" } else { "" }),
          _ => (*rng.pick(LABELS)).to_owned(),
        });
        let child = if is_token { toks.iter().find(|t| t.text == base).unwrap().name.clone() } else { base.clone() };
        let accessor = match &label {
          Some(l) => l.clone(),
          None if modi == Modi::Rep => format!("{}s", snake(&child)),
          None => snake(&child),
        };
        if accessor.chars().all(|c| c == '_') || !taken.insert(accessor.clone()) {
          continue;
        }
        let idx = fields.iter().filter(|f| f.base == base && f.is_token == is_token).count();
        last = Some((base.clone(), is_token));
        if is_token {
          mentioned.insert(base.clone());
        }
        fields.push(Field { label, base, is_token, modi, accessor, idx });
        break;
      }
    }
    nodes.push((p.clone(), Rule::Seq(fields)));
  }
  for (_, r) in &alts {
    if let Rule::Tokens(ts) = r {
      mentioned.extend(ts.iter().cloned());
    }
  }
  let unused: Vec<&Tok> = toks.iter().filter(|t| !mentioned.contains(&t.text)).collect();
  if !unused.is_empty() {
    // a grammar knows the tokens its rules mention
    let fields = unused
      .iter()
      .enumerate()
      .map(|(i, t)| {
        let letter = |n: usize| char::from(b'a' + (n % 26) as u8);
        let l = if i < 26 { format!("field_{}", letter(i)) } else { format!("field_{}{}", letter(i / 26 - 1), letter(i)) };
        Field { label: Some(l.clone()), base: t.text.clone(), is_token: true, modi: Modi::One, accessor: l, idx: 0 }
      })
      .collect();
    nodes.push(("TheRest".to_owned(), Rule::Seq(fields)));
  }
  nodes.extend(alts);
  // the text; the order of the rules does not matter
  let mut order: Vec<usize> = (0..nodes.len()).collect();
  rng.shuffle(&mut order);
  let mut text = String::new();
  for i in order {
    let (n, r) = &nodes[i];
    let body = match r {
      Rule::Seq(fs) => fs
        .iter()
        .map(|f| {
          let b = if f.is_token { quoted(&f.base) } else { f.base.clone() };
          let post = match f.modi {
            Modi::One => "",
            Modi::Opt => "?",
            Modi::Rep => "*",
          };
          match &f.label {
            Some(l) if (f.idx + l.len()) % 2 == 1 && !post.is_empty() => format!("({l}:{b}){post}"),
            Some(l) => format!("{l}:{b}{post}"),
            None => format!("{b}{post}"),
          }
        })
        .collect::<Vec<_>>()
        .join(" "),
      Rule::Nodes(xs) => xs.join(" | "),
      Rule::Tokens(xs) => xs.iter().map(|x| quoted(x)).collect::<Vec<_>>().join(" | "),
    };
    let _ = writeln!(text, "{n} = {body}");
  }
  Gram { toks, nodes, trivia, doc, special, text }
}

fn all_idents() -> Vec<String> {
  NODES.iter().map(|s| (*s).to_owned()).chain(["Root", "TheRest", "Whitespace", "BlockComment", "Invalid"].map(str::to_owned)).collect()
}

impl Gram {
  fn desc(&self) -> String {
    let m = |m: &HashMap<String, String>| format!("{:?}", m.iter().collect::<BTreeMap<_, _>>());
    format!("grammar:\n{}trivia: {:?}\nspecial: {}\ndoc: {}", self.text, self.trivia, m(&self.special), m(&self.doc))
  }
}

fn esc(s: &str) -> String {
  format!("{s:?}")
}

/// The program for G01: classes and names of the tokens.
fn prog_names(g: &Gram) -> String {
  let mut r = String::from(
    "mod kind { include!(\"kind.rs\"); }\nuse kind::SyntaxKind as SK;\n#[allow(unused)]\nfn names(n: u16) -> Vec<String> { (0..n).map(|i| format!(\"{:?}\", <kind::Lang as rowan::Language>::kind_from_raw(rowan::SyntaxKind(i)))).collect() }\n\
     fn main() {\n",
  );
  for t in &g.toks {
    let bs = esc(&t.text);
    let kw = format!("SK::keyword({bs}.as_bytes()).map(|k| format!(\"{{k:?}}\"))");
    let pu = format!(
      "SK::PUNCTUATION.iter().filter(|p| p.0 == {bs}.as_bytes()).map(|p| format!(\"{{:?}}\", p.1)).collect::<Vec<_>>()"
    );
    let (ekw, epu) = match t.class {
      Class::Keyword => (format!("Some({}.to_owned())", esc(&t.name)), "Vec::<String>::new()".to_owned()),
      Class::Punctuation => ("None::<String>".to_owned(), format!("vec![{}.to_owned()]", esc(&t.name))),
      Class::Special => ("None::<String>".to_owned(), "Vec::<String>::new()".to_owned()),
    };
    let _ = writeln!(r, "  chk(&{kw}, &{ekw}, concat!(\"the keyword of text \", {bs}));");
    let _ = writeln!(r, "  chk(&{pu}, &{epu}, concat!(\"the punctuation with text \", {bs}));");
  }
  let _ = writeln!(r, "  let n = count();\n  let all = names(n);");
  for t in &g.toks {
    let _ = writeln!(
      r,
      "  chk(&all.iter().filter(|x| *x == {}).count(), &1, concat!(\"the kinds with the name for text \", {}));",
      esc(&t.name),
      esc(&t.text)
    );
    let desc = t.desc.clone().unwrap_or_else(|| format!("`{}`", t.text));
    let _ = writeln!(
      r,
      "  for i in 0..n {{ let k = <kind::Lang as rowan::Language>::kind_from_raw(rowan::SyntaxKind(i)); if format!(\"{{k:?}}\") == {} {{ chk(&k.token_desc(), &Some({}), concat!(\"the description for text \", {bs})); chk(&k.token_doc(), &{:?}, concat!(\"the documentation for text \", {bs})); }} }}",
      esc(&t.name),
      esc(&desc),
      t.doc,
      bs = esc(&t.text),
    );
  }
  r.push_str("}\n");
  r + TAIL
}

const TAIL: &str = r#"
#[allow(unused)]
fn chk<T: PartialEq + std::fmt::Debug>(got: &T, want: &T, what: &str) {
  if got != want { println!("FAIL {what}: {got:?}, expected {want:?}"); std::process::exit(0); }
}
/// how many kinds there are
#[allow(unused)]
fn count() -> u16 {
  std::panic::set_hook(Box::new(|_| {}));
  let mut n = 0u16;
  while std::panic::catch_unwind(|| { let _ = <kind::Lang as rowan::Language>::kind_from_raw(rowan::SyntaxKind(n)); }).is_ok() { n += 1; }
  let _ = std::panic::take_hook();
  n
}
"#;

/// The program for G02: the kinds and the accessors.
fn prog_tree(g: &Gram, rng: &mut Rng) -> String {
  let tok_name = |text: &str| g.toks.iter().find(|t| t.text == text).unwrap().name.clone();
  let plain: Vec<&str> = g.nodes.iter().filter(|(_, r)| matches!(r, Rule::Seq(_))).map(|(n, _)| n.as_str()).collect();
  let mut r = String::from(
    r#"mod kind { include!("kind.rs"); }
#[allow(unused)]
mod ast { include!("ast.rs"); }
#[allow(unused)]
use ast::AstNode as _;
#[allow(unused)]
use rowan::Language as _;
#[allow(unused)]
use kind::SyntaxKind as SK;
/// children: kind, text, whether it is a node
#[allow(unused)]
fn tree(k: SK, cs: &[(SK, &str, bool)]) -> kind::SyntaxNode {
  let mut b = rowan::GreenNodeBuilder::new();
  b.start_node(k.into());
  for (k, t, node) in cs {
    if *node { b.start_node((*k).into()); b.token(SK::Whitespace.into(), t); b.finish_node(); } else { b.token((*k).into(), t); }
  }
  b.finish_node();
  kind::SyntaxNode::new_root(b.finish())
}
fn main() {
  let n = count();
  let mut all: Vec<String> = (0..n).map(|i| format!("{:?}", kind::Lang::kind_from_raw(rowan::SyntaxKind(i)))).collect();
  all.sort();
"#,
  );
  let mut kinds: Vec<String> =
    g.trivia.iter().map(|s| (*s).to_owned()).chain(g.toks.iter().map(|t| t.name.clone())).chain(plain.iter().map(|s| (*s).to_owned())).collect();
  kinds.sort();
  let _ = writeln!(r, "  let want: Vec<String> = {kinds:?}.iter().map(|s| s.to_string()).collect();\n  chk(&all, &want, \"the kinds\");");
  for k in &kinds {
    let _ = writeln!(
      r,
      "  chk(&token::Triviable::is_trivia(&SK::{k}), &{}, \"trivia {k}\"); chk(&kind::Lang::kind_from_raw(kind::Lang::kind_to_raw(SK::{k})), &SK::{k}, \"raw {k}\");",
      g.trivia.contains(&k.as_str())
    );
    let t = g.toks.iter().find(|t| t.name == *k);
    let desc = t.map(|t| t.desc.clone().unwrap_or_else(|| format!("`{}`", t.text)));
    let doc = t.and_then(|t| t.doc.clone());
    let _ = writeln!(r, "  chk(&SK::{k}.token_desc(), &{desc:?}, \"description of {k}\"); chk(&SK::{k}.token_doc(), &{doc:?}, \"documentation of {k}\");");
    let _ = writeln!(r, "  chk(&SK::{k}.to_string().as_str(), &{:?}, \"display of {k}\");", desc.unwrap_or_else(|| k.clone()));
  }
  let mut keys: Vec<String> = g.toks.iter().map(|t| t.text.clone()).collect();
  keys.extend(["", "zz", "If", "while ", "+"].map(str::to_owned));
  for t in &keys {
    let want = g.toks.iter().find(|x| x.text == *t && x.class == Class::Keyword).map(|x| format!("SK::{}", x.name));
    let want = want.map_or("None".to_owned(), |w| format!("Some({w})"));
    let _ = writeln!(r, "  chk(&SK::keyword({t:?}.as_bytes()), &{want}, concat!(\"keyword \", {t:?}));");
  }
  // longest first: every prefix comes after; each once
  let puncts: Vec<&Tok> = g.toks.iter().filter(|t| t.class == Class::Punctuation).collect();
  let _ = writeln!(r, "  chk(&SK::PUNCTUATION.len(), &{}, \"the number of punctuation tokens\");", puncts.len());
  let _ = writeln!(
    r,
    "  for w in SK::PUNCTUATION.windows(2) {{ let w: &[(&'static [u8], SK)] = w; chk(&(w[0].0.len() >= w[1].0.len()), &true, \"punctuation longest first\"); }}"
  );
  for p in &puncts {
    let _ = writeln!(
      r,
      "  chk(&SK::PUNCTUATION.iter().filter(|x| x.0 == {t:?}.as_bytes() && x.1 == SK::{n}).count(), &1, concat!(\"punctuation \", {t:?}));",
      t = p.text,
      n = p.name
    );
  }
  // trees
  for (name, rule) in &g.nodes {
    match rule {
      Rule::Seq(fields) => {
        for round in 0..6 {
          // children: mostly what the rule mentions
          let mut cs: Vec<(String, bool)> = Vec::new();
          if round == 0 {
            for f in fields {
              cs.extend(concrete(g, f, rng));
            }
          } else if round > 1 {
            for _ in 0..rng.below(9) {
              if rng.chance(3, 4) {
                let f = rng.pick(fields);
                cs.extend(concrete(g, f, rng));
              } else if rng.chance(1, 2) {
                cs.push((rng.pick(&g.toks).name.clone(), false));
              } else {
                cs.push(((*rng.pick(&plain)).to_owned(), true));
              }
            }
          }
          let arr: Vec<String> = cs.iter().enumerate().map(|(i, (k, n))| format!("(SK::{k}, \"c{i}\", {n})")).collect();
          let _ = writeln!(r, "  {{\n    let x = ast::{name}::cast(tree(SK::{name}, &[{}])).unwrap();", arr.join(", "));
          for f in fields {
            let (m, is_alt) = matching(g, f, &cs);
            let text = if !f.is_token && !is_alt {
              "y.syntax().text().to_string()".to_owned()
            } else if is_alt {
              "y.token.text().to_owned() + \" \" + y.kind.to_str()".to_owned()
            } else {
              "y.text().to_owned()".to_owned()
            };
            let show = |i: &usize| {
              if is_alt {
                let t = g.toks.iter().find(|t| t.name == cs[*i].0).unwrap();
                format!("c{i} {}", t.text)
              } else {
                format!("c{i}")
              }
            };
            let what = esc(&format!("{name}.{} on children {:?}", f.accessor, cs));
            if f.modi == Modi::Rep {
              let want: Vec<String> = m.iter().map(show).collect();
              let _ = writeln!(
                r,
                "    chk(&x.{}().map(|y| {text}).collect::<Vec<String>>(), &{want:?}.into_iter().map(|s: &str| s.to_owned()).collect(), {what});",
                f.accessor
              );
            } else {
              let want: Option<String> = m.get(f.idx).map(show);
              let _ = writeln!(r, "    chk(&x.{}().map(|y| {text}), &{want:?}.map(|s: &str| s.to_owned()), {what});", f.accessor);
            }
          }
          r.push_str("  }\n");
        }
        for other in &kinds {
          let _ = writeln!(r, "  chk(&ast::{name}::can_cast(SK::{other}), &{}, \"{name}::can_cast({other})\");", other == name);
        }
      }
      Rule::Nodes(xs) => {
        for other in &kinds {
          let want = xs.contains(other);
          let _ = writeln!(r, "  chk(&ast::{name}::can_cast(SK::{other}), &{want}, \"{name}::can_cast({other})\");");
          let _ = writeln!(
            r,
            "  chk(&ast::{name}::cast(tree(SK::{other}, &[])).is_some(), &{want}, \"{name}::cast({other})\");"
          );
        }
        for x in xs {
          let _ = writeln!(
            r,
            "  chk(&matches!(ast::{name}::cast(tree(SK::{x}, &[])), Some(ast::{name}::{x}(_))), &true, \"{name} casts {x} to its own variant\");\n  chk(&ast::{name}::cast(tree(SK::{x}, &[])).unwrap().syntax().kind(), &SK::{x}, \"syntax of {name}::{x}\");"
          );
        }
      }
      Rule::Tokens(xs) => {
        for t in &g.toks {
          let want = if xs.contains(&t.text) { format!("Some({:?})", t.text) } else { "None".to_owned() };
          let _ = writeln!(
            r,
            "  chk(&tree(SK::Root, &[(SK::{n}, \"t\", false)]).first_token().unwrap().try_into().ok().map(|x: ast::{name}| x.kind.to_str()), &{want}, \"{name} from {n}\");",
            n = t.name
          );
        }
        let _ = tok_name;
      }
    }
  }
  r.push_str("}\n");
  r + TAIL
}

/// a child that `f` matches: its kind, whether it is a node
fn concrete(g: &Gram, f: &Field, rng: &mut Rng) -> Option<(String, bool)> {
  if f.is_token {
    return Some((g.toks.iter().find(|t| t.text == f.base)?.name.clone(), false));
  }
  match &g.nodes.iter().find(|(n, _)| *n == f.base)?.1 {
    Rule::Seq(_) => Some((f.base.clone(), true)),
    Rule::Nodes(xs) => Some((rng.pick(xs).clone(), true)),
    Rule::Tokens(xs) => {
      let t = rng.pick(xs);
      Some((g.toks.iter().find(|x| x.text == *t)?.name.clone(), false))
    }
  }
}

/// the children `f` matches; whether `f` is an alternative of tokens
fn matching(g: &Gram, f: &Field, cs: &[(String, bool)]) -> (Vec<usize>, bool) {
  let (set, node, alt): (Vec<String>, bool, bool) = if f.is_token {
    (vec![g.toks.iter().find(|t| t.text == f.base).unwrap().name.clone()], false, false)
  } else {
    match &g.nodes.iter().find(|(n, _)| *n == f.base).unwrap().1 {
      Rule::Seq(_) => (vec![f.base.clone()], true, false),
      Rule::Nodes(xs) => (xs.clone(), true, false),
      Rule::Tokens(xs) => (xs.iter().map(|x| g.toks.iter().find(|t| t.text == *x).unwrap().name.clone()).collect(), false, true),
    }
  };
  ((0..cs.len()).filter(|&i| cs[i].1 == node && set.contains(&cs[i].0)).collect(), alt)
}

/// the newest library of that crate next to this program
fn rlib(name: &str) -> PathBuf {
  let deps = std::env::current_exe().unwrap().parent().unwrap().join("deps");
  let mut xs: Vec<(std::time::SystemTime, PathBuf)> = std::fs::read_dir(&deps)
    .unwrap()
    .filter_map(Result::ok)
    .filter(|e| {
      let n = e.file_name().to_string_lossy().into_owned();
      n.starts_with(&format!("lib{name}-")) && n.ends_with(".rlib")
    })
    .map(|e| (e.metadata().unwrap().modified().unwrap(), e.path()))
    .collect();
  xs.sort();
  xs.pop().expect("no library").1
}

/// compiles and runs; what failed
fn compile_and_run(dir: &Path, which: &str) -> Result<(), String> {
  let exe = dir.join(which);
  let deps = std::env::current_exe().unwrap().parent().unwrap().join("deps");
  let out = Command::new("rustc")
    .args(["--edition", "2021", "--crate-type", "bin", "-C", "debuginfo=0", "-A", "warnings", "-L"])
    .arg(format!("dependency={}", deps.display()))
    .arg("--extern")
    .arg(format!("rowan={}", rlib("rowan").display()))
    .arg("--extern")
    .arg(format!("token={}", rlib("token").display()))
    .arg("-o")
    .arg(&exe)
    .arg(dir.join(format!("{which}.rs")))
    .output()
    .expect("rustc does not run");
  if !out.status.success() {
    let err = String::from_utf8_lossy(&out.stderr).into_owned();
    if !err.contains("error") {
      panic!("rustc was stopped: {err}");
    }
    return Err(format!("the generated code does not compile, or lacks what the grammar asks for: {}", err.chars().take(1500).collect::<String>()));
  }
  let out = Command::new(&exe).output().expect("the program does not run");
  let so = String::from_utf8_lossy(&out.stdout).into_owned();
  if let Some(l) = so.lines().find_map(|l| l.strip_prefix("FAIL ")) {
    return Err(l.to_owned());
  }
  if !out.status.success() {
    return Err(format!("the generated code panics: {}", String::from_utf8_lossy(&out.stderr).chars().take(1500).collect::<String>()));
  }
  Ok(())
}

fn go(run: &mut Run, tree: bool) {
  let scratch = std::env::current_dir().unwrap().join(format!("gen-scratch-{}", std::process::id()));
  while run.more() {
    let mut batch = Vec::new();
    let mut bad = None;
    for i in 0..8 {
      let g = gen(&mut run.rng);
      let dir = scratch.join(i.to_string());
      std::fs::create_dir_all(&dir).unwrap();
      std::env::set_var("OUT_DIR", &dir);
      let doc: HashMap<&str, &str> = g.doc.iter().map(|(a, b)| (a.as_str(), b.as_str())).collect();
      let special: HashMap<&str, &str> = g.special.iter().map(|(a, b)| (a.as_str(), b.as_str())).collect();
      let res = catch_unwind(AssertUnwindSafe(|| {
        syntax_gen::get(&syntax_gen::Options {
          lang: "Lang",
          trivia: &g.trivia,
          grammar: &g.text,
          doc: &doc,
          special: &special,
          file: "replay",
        });
      }));
      if let Err(p) = res {
        bad = Some((g.desc(), format!("syntax_gen::get panics: {}", msg(&*p))));
        break;
      }
      let prog = if tree { prog_tree(&g, &mut run.rng) } else { prog_names(&g) };
      std::fs::write(dir.join("prog.rs"), prog).unwrap();
      batch.push((g, dir));
    }
    if let Some((d, w)) = bad {
      run.fail(&w, &d);
      break;
    }
    let results: Vec<Result<(), String>> = std::thread::scope(|s| {
      let hs: Vec<_> = batch.iter().map(|(_, d)| s.spawn(move || compile_and_run(d, "prog"))).collect();
      hs.into_iter().map(|h| h.join().unwrap()).collect()
    });
    for ((g, _), res) in batch.iter().zip(results) {
      run.case(g.desc(), g.nodes.len() > 2, || res);
    }
  }
  let _ = std::fs::remove_dir_all(&scratch);
}

fn g01(run: &mut Run) {
  go(run, false);
}

fn g02(run: &mut Run) {
  go(run, true);
}

fn main() {
  run_main(&[
    ("G01", "random grammars with keywords, punctuation, special tokens, documentation: the generated kind.rs compiled and asked for every token", g01),
    ("G02", "random grammars with sequences, labels, optional and repeated children and alternatives: the generated code compiled and run on random trees", g02),
  ]);
}
