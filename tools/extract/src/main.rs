//! Mechanical extraction of real source + contract overlay into one Verus file.
//!
//! usage: extract OVERLAY REPO OUT.rs FACTS.json [--canary] [--external sel]...
//!
//! Executable text is copied from REPO by byte range; only the edits described in the overlay (and
//! the fixed policy below) are applied. See ../../DESIGN.md section 4 for the overlay format.

use serde_json::{Value, json};
use std::collections::{BTreeMap, BTreeSet};
use std::ops::Range;
use syn::spanned::Spanned;
use syn::visit::Visit;

#[derive(Default, Clone, Debug)]
struct FnOv {
  ret: Option<String>,
  attrs: Vec<String>,
  spec: String,
  loops: BTreeMap<usize, (Option<String>, Option<String>, String)>,
  closures: BTreeMap<usize, (String, String)>,
  lifts: BTreeMap<usize, (String, String)>,
  at: Vec<(String, String)>,
  nocanary: bool,
  used: bool,
  line: usize,
}

#[derive(Default)]
struct Block {
  path: String,
  drop: Vec<String>,
  only: Vec<String>,
  derive: BTreeMap<String, Vec<String>>,
  attr: Vec<(String, String)>,
  inject: Vec<(String, String)>,
  rewrite: Vec<(String, String)>,
  panics_may: bool,
  fns: BTreeMap<String, FnOv>,
  keep_vis: bool,
  fmt: bool,
  macros: bool,
  quote: bool,
  eager: Vec<(String, usize, String)>,
  inherent: Vec<String>,
  hidden: Vec<String>,
}

fn die(msg: &str) -> ! {
  eprintln!("extract: {msg}");
  std::process::exit(2);
}

fn parse_block(path: &str, lines: &[(usize, &str)]) -> Block {
  let mut b = Block { path: path.to_owned(), ..Block::default() };
  let ind = |s: &str| s.len() - s.trim_start().len();
  let mut i = 0;
  while i < lines.len() {
    let (ln, l) = lines[i];
    i += 1;
    if l.trim().is_empty() || l.trim_start().starts_with("//#") {
      continue;
    }
    if ind(l) != 0 {
      die(&format!("overlay line {}: unexpected indent: {l}", ln + 1));
    }
    let (word, rest) = l.split_once(' ').unwrap_or((l, ""));
    let rest = rest.trim();
    // the indented body
    let mut body: Vec<(usize, &str)> = Vec::new();
    while i < lines.len() && (lines[i].1.trim().is_empty() || ind(lines[i].1) > 0) {
      body.push(lines[i]);
      i += 1;
    }
    let text = || body.iter().map(|x| x.1).collect::<Vec<_>>().join("\n");
    match word {
      "drop" => b.drop.push(rest.to_owned()),
      "only" => b.only.push(rest.to_owned()),
      "inherent" => b.inherent.push(rest.to_owned()),
      "keep-vis" => b.keep_vis = true,
      "expand-fmt" => b.fmt = true,
      "expand-macros" => b.macros = true,
      "expand-quote" => b.quote = true,
      "eager" => {
        // eager FN K TYPE
        let ws: Vec<&str> = rest.splitn(3, ' ').collect();
        let [f, k, t] = ws[..] else { die("eager FN K TYPE") };
        b.eager.push((f.to_owned(), k.parse().unwrap_or_else(|_| die("eager FN K TYPE")), t.to_owned()));
      }
      "derive" => {
        let mut ws = rest.split_whitespace().map(str::to_owned);
        let t = ws.next().unwrap_or_default();
        b.derive.insert(t, ws.collect());
      }
      "attr" => {
        let (sel, a) = rest.split_once(" #").unwrap_or_else(|| die("attr needs #[..]"));
        b.attr.push((sel.trim().to_owned(), format!("#{a}")));
      }
      "inject" => b.inject.push((rest.to_owned(), text())),
      "panics" => b.panics_may = rest.trim() == "may",
      "rewrite" => {
        let parts: Vec<&str> = rest.split('`').collect();
        if parts.len() != 5 {
          die(&format!("overlay line {}: rewrite `a` => `b`", ln + 1));
        }
        b.rewrite.push((parts[1].to_owned(), parts[3].to_owned()));
      }
      "fn" => {
        let mut f = FnOv { line: ln + 1, ..FnOv::default() };
        let mut j = 0;
        while j < body.len() {
          let (ln, l) = body[j];
          j += 1;
          if l.trim().is_empty() || l.trim_start().starts_with("//#") {
            continue;
          }
          if ind(l) != 2 {
            die(&format!("overlay line {}: expected indent 2: {l}", ln + 1));
          }
          let l = l.trim();
          let (word, rest) = l.split_once(' ').unwrap_or((l, ""));
          let rest = rest.trim();
          let mut sub: Vec<&str> = Vec::new();
          while j < body.len() && (body[j].1.trim().is_empty() || ind(body[j].1) > 2) {
            sub.push(body[j].1);
            j += 1;
          }
          let sub = sub.join("\n");
          match word {
            "ret" => f.ret = Some(rest.to_owned()),
            "attr" => f.attrs.push(rest.to_owned()),
            "spec" => f.spec = sub,
            "nocanary" => f.nocanary = true,
            "loop" => {
              let mut ws = rest.split_whitespace();
              let n = ws.next().and_then(|x| x.parse().ok()).unwrap_or_else(|| die("loop N"));
              let it = ws.next().map(str::to_owned);
              let wrap = ws.next().map(|w| w.trim_start_matches("wrap=").to_owned());
              f.loops.insert(n, (it, wrap, sub));
            }
            "closure" => {
              let (n, h) = rest.split_once(' ').unwrap_or((rest, ""));
              let n = n.parse().unwrap_or_else(|_| die("closure N"));
              f.closures.insert(n, (h.to_owned(), sub));
            }
            "lift" => {
              let (n, h) = rest.split_once(' ').unwrap_or((rest, ""));
              let n = n.parse().unwrap_or_else(|_| die("lift N EXPR"));
              f.lifts.insert(n, (h.to_owned(), sub));
            }
            "at" => f.at.push((rest.to_owned(), sub)),
            _ => die(&format!("overlay line {}: unknown fn directive {word}", ln + 1)),
          }
        }
        b.fns.insert(rest.to_owned(), f);
      }
      _ => die(&format!("overlay line {}: unknown directive {word}", ln + 1)),
    }
  }
  b
}

struct Edit {
  range: Range<usize>,
  text: String,
  /// order among edits at the same position
  prio: i32,
}

#[derive(Default)]
struct Body {
  loops: Vec<LoopInfo>,
  closures: Vec<ClosureInfo>,
  calls: Vec<(String, Range<usize>, Range<usize>)>,
  stmt_stack: Vec<Range<usize>>,
  attrs: Vec<Range<usize>>,
  rets: Vec<Range<usize>>,
  /// tuple structs' names given as functions
  ctors: Vec<(Range<usize>, String)>,
  continues: Vec<Range<usize>>,
  breaks: Vec<Range<usize>>,
  /// patterns `&x` of `if let`, `while let` and `match` arms: where, the name, where it becomes visible
  /// (a block's start, or an expression to be wrapped)
  refs: Vec<(Range<usize>, String, Range<usize>, bool)>,
  /// nested blocks in source order, the body being number 0; with the position of the tail
  blocks: Vec<(Range<usize>, Option<Range<usize>>)>,
}

struct LoopInfo {
  kind: &'static str,
  stmt: Range<usize>,
  body: Range<usize>,
  body_tail: Option<Range<usize>>,
  for_expr: Option<Range<usize>>,
  for_pat: Option<Range<usize>>,
  full: Range<usize>,
}

struct ClosureInfo {
  full: Range<usize>,
  head: Range<usize>,
  inputs: Vec<Range<usize>>,
  names: Vec<Option<String>>,
  body: Range<usize>,
  is_block: bool,
}

fn br<T: Spanned>(t: &T) -> Range<usize> {
  t.span().byte_range()
}

impl Body {
  fn ctors<'a>(&mut self, args: impl Iterator<Item = &'a syn::Expr>) {
    for a in args {
      let syn::Expr::Path(p) = a else { continue };
      let Some(i) = p.path.get_ident() else { continue };
      if i.to_string().starts_with(|c: char| c.is_ascii_uppercase()) {
        self.ctors.push((br(a), i.to_string()));
      }
    }
  }
  fn stmt(&self, e: Range<usize>) -> Range<usize> {
    self.stmt_stack.last().cloned().unwrap_or(e)
  }
}

fn tail_of(b: &syn::Block) -> Option<Range<usize>> {
  match b.stmts.last() {
    Some(syn::Stmt::Expr(e, None)) => Some(br(e)),
    _ => None,
  }
}

/// the `&x` in a pattern
struct RefPats(Vec<(Range<usize>, String)>);
impl<'a> Visit<'a> for RefPats {
  fn visit_pat_reference(&mut self, p: &'a syn::PatReference) {
    match &*p.pat {
      syn::Pat::Ident(i) if p.mutability.is_none() && i.by_ref.is_none() && i.subpat.is_none() && i.mutability.is_none() => {
        self.0.push((br(p), i.ident.to_string()));
      }
      _ => syn::visit::visit_pat_reference(self, p),
    }
  }
}

impl Body {
  fn ref_pats(&mut self, p: &syn::Pat, at: Range<usize>, block: bool) {
    let mut v = RefPats(Vec::new());
    v.visit_pat(p);
    for (r, n) in v.0 {
      self.refs.push((r, n, at.clone(), block));
    }
  }
  fn ref_pats_cond(&mut self, c: &syn::Expr, b: &syn::Block) {
    match c {
      syn::Expr::Let(l) => self.ref_pats(&l.pat, br(b), true),
      syn::Expr::Binary(x) => {
        self.ref_pats_cond(&x.left, b);
        self.ref_pats_cond(&x.right, b);
      }
      _ => {}
    }
  }
}

impl<'a> Visit<'a> for Body {
  fn visit_expr_if(&mut self, e: &'a syn::ExprIf) {
    self.ref_pats_cond(&e.cond, &e.then_branch);
    syn::visit::visit_expr_if(self, e);
  }
  fn visit_arm(&mut self, a: &'a syn::Arm) {
    if a.guard.is_none() {
      match &*a.body {
        syn::Expr::Block(b) if b.label.is_none() => self.ref_pats(&a.pat, br(&b.block), true),
        e => self.ref_pats(&a.pat, br(e), false),
      }
    }
    syn::visit::visit_arm(self, a);
  }
  fn visit_attribute(&mut self, a: &'a syn::Attribute) {
    self.attrs.push(br(a));
  }
  fn visit_stmt(&mut self, s: &'a syn::Stmt) {
    self.stmt_stack.push(br(s));
    syn::visit::visit_stmt(self, s);
    self.stmt_stack.pop();
  }
  fn visit_expr_for_loop(&mut self, e: &'a syn::ExprForLoop) {
    self.loops.push(LoopInfo {
      kind: "for_loop",
      stmt: self.stmt(br(e)),
      body: br(&e.body),
      body_tail: tail_of(&e.body),
      for_expr: Some(br(&e.expr)),
      for_pat: Some(br(&e.pat)),
      full: br(e),
    });
    syn::visit::visit_expr_for_loop(self, e);
  }
  fn visit_expr_while(&mut self, e: &'a syn::ExprWhile) {
    self.ref_pats_cond(&e.cond, &e.body);
    self.loops.push(LoopInfo {
      kind: "while",
      stmt: self.stmt(br(e)),
      body: br(&e.body),
      body_tail: tail_of(&e.body),
      for_expr: None,
      for_pat: None,
      full: br(e),
    });
    syn::visit::visit_expr_while(self, e);
  }
  fn visit_expr_loop(&mut self, e: &'a syn::ExprLoop) {
    self.loops.push(LoopInfo {
      kind: "loop",
      stmt: self.stmt(br(e)),
      body: br(&e.body),
      body_tail: tail_of(&e.body),
      for_expr: None,
      for_pat: None,
      full: br(e),
    });
    syn::visit::visit_expr_loop(self, e);
  }
  fn visit_expr_closure(&mut self, e: &'a syn::ExprClosure) {
    let end = match &e.output {
      syn::ReturnType::Default => br(&e.or2_token).end,
      syn::ReturnType::Type(_, t) => br(t).end,
    };
    self.closures.push(ClosureInfo {
      full: br(e),
      head: br(&e.or1_token).start..end,
      inputs: e
        .inputs
        .iter()
        .map(|p| match p {
          syn::Pat::Type(t) => br(&t.pat),
          p => br(p),
        })
        .collect(),
      names: e
        .inputs
        .iter()
        .map(|p| {
          let p = match p {
            syn::Pat::Type(t) => &*t.pat,
            p => p,
          };
          match p {
            syn::Pat::Ident(i) if i.by_ref.is_none() && i.subpat.is_none() => Some(i.ident.to_string()),
            _ => None,
          }
        })
        .collect(),
      body: br(&e.body),
      is_block: matches!(&*e.body, syn::Expr::Block(b) if b.label.is_none() && b.attrs.is_empty()),
    });
    syn::visit::visit_expr_closure(self, e);
  }
  fn visit_expr_continue(&mut self, e: &'a syn::ExprContinue) {
    self.continues.push(br(e));
  }
  fn visit_expr_break(&mut self, e: &'a syn::ExprBreak) {
    self.breaks.push(br(e));
    syn::visit::visit_expr_break(self, e);
  }
  fn visit_block(&mut self, b: &'a syn::Block) {
    self.blocks.push((br(b), tail_of(b)));
    syn::visit::visit_block(self, b);
  }
  fn visit_expr_return(&mut self, e: &'a syn::ExprReturn) {
    self.rets.push(br(e));
    syn::visit::visit_expr_return(self, e);
  }
  fn visit_expr_method_call(&mut self, e: &'a syn::ExprMethodCall) {
    syn::visit::visit_expr_method_call(self, e);
    self.ctors(e.args.iter());
    self.calls.push((e.method.to_string(), self.stmt(br(e)), br(e)));
  }
  fn visit_expr_call(&mut self, e: &'a syn::ExprCall) {
    syn::visit::visit_expr_call(self, e);
    self.ctors(e.args.iter());
    if let syn::Expr::Path(p) = &*e.func {
      let n = p.path.segments.last().map(|s| s.ident.to_string()).unwrap_or_default();
      self.calls.push((n, self.stmt(br(e)), br(e)));
    }
  }
  fn visit_macro(&mut self, m: &'a syn::Macro) {
    let n = m.path.segments.last().map(|s| s.ident.to_string()).unwrap_or_default();
    self.calls.push((format!("{n}!"), self.stmt(br(m)), br(m)));
  }
}

struct Cx<'a> {
  src: String,
  b: &'a mut Block,
  edits: Vec<Edit>,
  facts: Vec<Value>,
  lost: Vec<String>,
  dropped: Vec<String>,
  rewrites: Vec<Value>,
  lifts: Vec<(String, String)>,
  canary: bool,
  canaries: &'a mut usize,
  external: &'a BTreeSet<String>,
  seen: BTreeMap<String, usize>,
  inject_used: BTreeSet<usize>,
  attr_used: BTreeSet<usize>,
  drop_used: BTreeSet<usize>,
  only_used: BTreeSet<usize>,
  /// structs of the form `struct X(T);`
  newtypes: BTreeMap<String, String>,
}

fn type_name(t: &syn::Type) -> String {
  match t {
    syn::Type::Path(p) => p.path.segments.last().map(|s| s.ident.to_string()).unwrap_or_default(),
    syn::Type::Reference(r) => format!("&{}", type_name(&r.elem)),
    syn::Type::Slice(s) => format!("[{}]", type_name(&s.elem)),
    _ => "?".to_owned(),
  }
}

fn norm(t: &str) -> String {
  t.split_whitespace().collect::<Vec<_>>().join(" ")
}

impl Cx<'_> {
  fn uniq(&mut self, sel: String) -> String {
    let n = self.seen.entry(sel.clone()).or_default();
    *n += 1;
    if *n == 1 { sel } else { format!("{sel}#{n}") }
  }
  fn del(&mut self, range: Range<usize>) {
    self.edits.push(Edit { range, text: String::new(), prio: 0 });
  }
  fn ins(&mut self, pos: usize, text: String, prio: i32) {
    self.edits.push(Edit { range: pos..pos, text, prio });
  }
  fn is_dropped(&mut self, sel: &str) -> bool {
    if !self.b.only.is_empty() {
      let mut kept = false;
      for (i, o) in self.b.only.iter().enumerate() {
        if o == sel {
          self.only_used.insert(i);
          kept = true;
        }
      }
      return !kept;
    }
    for (i, d) in self.b.drop.iter().enumerate() {
      let hit = match d.strip_suffix('*') {
        Some(p) => sel.starts_with(p),
        None => d == sel,
      };
      if hit {
        self.drop_used.insert(i);
        return true;
      }
    }
    false
  }
  fn drop_item(&mut self, what: &str, range: Range<usize>) {
    self.dropped.push(what.to_owned());
    self.del(range);
  }
  fn attrs(&mut self, attrs: &[syn::Attribute], ty: Option<&str>) {
    for a in attrs {
      let p = a.path().segments.last().map(|s| s.ident.to_string()).unwrap_or_default();
      if p == "derive" {
        let mut keep = Vec::new();
        let mut all = Vec::new();
        let _ = a.parse_nested_meta(|m| {
          let n = m.path.segments.last().map(|s| s.ident.to_string()).unwrap_or_default();
          all.push(n.clone());
          let ok = match ty.and_then(|t| self.b.derive.get(t)) {
            Some(ks) => ks.contains(&n),
            None => ["Clone", "Copy", "PartialEq", "Eq", "Default"].contains(&n.as_str()),
          };
          if ok {
            keep.push(n);
          }
          Ok(())
        });
        for x in &all {
          if !keep.contains(x) {
            self.dropped.push(format!("derive {x} on {}", ty.unwrap_or("?")));
          }
        }
        let text =
          if keep.is_empty() { String::new() } else { format!("#[derive({})]", keep.join(", ")) };
        self.edits.push(Edit { range: br(a), text, prio: 0 });
      } else if ["must_use", "allow", "inline", "expect"].contains(&p.as_str()) {
        self.del(br(a));
      }
    }
  }
  fn extra_attr(&mut self, sel: &str, pos: usize) {
    let mut out = Vec::new();
    for (i, (s, a)) in self.b.attr.iter().enumerate() {
      if s == sel {
        self.attr_used.insert(i);
        out.push(a.clone());
      }
    }
    for a in out {
      self.ins(pos, format!("{a} "), -5);
    }
  }
  fn vis(&mut self, v: &syn::Visibility, pos: usize) {
    if self.b.keep_vis {
      return;
    }
    match v {
      syn::Visibility::Public(_) => {}
      syn::Visibility::Inherited => self.ins(pos, "pub ".to_owned(), -1),
      syn::Visibility::Restricted(r) => {
        let range = br(r);
        self.edits.push(Edit { range, text: "pub".to_owned(), prio: 0 });
      }
    }
  }
  fn cfg_test(attrs: &[syn::Attribute]) -> bool {
    attrs.iter().any(|a| {
      let p = a.path().segments.last().map(|s| s.ident.to_string()).unwrap_or_default();
      p == "test"
        || (p == "cfg" && matches!(&a.meta, syn::Meta::List(l) if l.tokens.to_string() == "test"))
    })
  }
  fn inject(&mut self, sel: &str, pos: usize) {
    let mut out = String::new();
    for (i, (s, t)) in self.b.inject.iter().enumerate() {
      if s == sel {
        self.inject_used.insert(i);
        out.push_str(&format!("\n{t}\n"));
      }
    }
    if !out.is_empty() {
      self.ins(pos, out, 0);
    }
  }

  fn fields(&mut self, fs: &syn::Fields) {
    for f in fs {
      self.attrs(&f.attrs, None);
      let pos = match &f.ident {
        Some(i) => br(i).start,
        None => br(&f.ty).start,
      };
      self.vis(&f.vis, pos);
    }
  }

  fn item(&mut self, it: &syn::Item) {
    let r = br(it);
    match it {
      syn::Item::Use(_) => self.del(r),
      syn::Item::ExternCrate(_) => self.del(r),
      syn::Item::Mod(m) => {
        let sel = format!("mod {}", m.ident);
        if m.content.is_none() || Self::cfg_test(&m.attrs) || self.is_dropped(&sel) {
          self.del(r);
        } else if let Some((_, items)) = &m.content {
          self.vis(&m.vis, br(&m.mod_token).start);
          for it in items {
            self.item(it);
          }
        }
      }
      syn::Item::Macro(m) => {
        let n = m.ident.as_ref().map(|x| x.to_string()).unwrap_or_default();
        if self.b.only.iter().any(|x| *x == format!("macro {n}")) {
          let i = self.b.only.iter().position(|x| *x == format!("macro {n}")).unwrap();
          self.only_used.insert(i);
          for a in &m.attrs {
            self.del(br(a));
          }
        } else {
          self.drop_item(&format!("macro {n}"), r);
        }
      }
      syn::Item::Fn(f) => {
        if Self::cfg_test(&f.attrs) {
          self.del(r);
          return;
        }
        let sel = self.uniq(f.sig.ident.to_string());
        if self.is_dropped(&format!("fn {sel}")) {
          self.drop_item(&format!("fn {sel}"), r);
          return;
        }
        self.attrs(&f.attrs, None);
        self.vis(&f.vis, self.sig_start(&f.sig));
        self.func(&sel, r, &f.sig, Some(&f.block), None);
      }
      syn::Item::Struct(s) => {
        let sel = format!("struct {}", s.ident);
        if self.is_dropped(&sel) {
          self.drop_item(&sel, r);
          return;
        }
        self.facts.push(json!({"item": sel, "text": norm(&self.src[br(&s.fields)])}));
        self.attrs(&s.attrs, Some(&s.ident.to_string()));
        self.extra_attr(&sel, r.start);
        self.vis(&s.vis, br(&s.struct_token).start);
        self.fields(&s.fields);
      }
      syn::Item::Enum(s) => {
        let sel = format!("enum {}", s.ident);
        if self.is_dropped(&sel) {
          self.drop_item(&sel, r);
          return;
        }
        let vs: Vec<String> = s.variants.iter().map(|v| norm(&self.src[br(v)])).collect();
        self.facts.push(json!({"item": sel, "text": vs}));
        self.attrs(&s.attrs, Some(&s.ident.to_string()));
        self.extra_attr(&sel, r.start);
        self.vis(&s.vis, br(&s.enum_token).start);
        for v in &s.variants {
          self.attrs(&v.attrs, None);
        }
      }
      syn::Item::Type(t) => {
        let sel = format!("type {}", t.ident);
        if self.is_dropped(&sel) {
          self.drop_item(&sel, r);
          return;
        }
        self.vis(&t.vis, br(&t.type_token).start);
      }
      syn::Item::Const(t) => {
        let sel = format!("const {}", t.ident);
        if self.is_dropped(&sel) {
          self.drop_item(&sel, r);
          return;
        }
        self.vis(&t.vis, br(&t.const_token).start);
      }
      syn::Item::Trait(t) => {
        let sel = format!("trait {}", t.ident);
        if self.is_dropped(&sel) {
          self.drop_item(&sel, r);
          return;
        }
        self.attrs(&t.attrs, None);
        self.extra_attr(&sel, r.start);
        let start = t.unsafety.map(|x| br(&x).start).unwrap_or(br(&t.trait_token).start);
        self.vis(&t.vis, start);
        self.inject(&sel, t.brace_token.span.open().byte_range().end);
        for ti in &t.items {
          if let syn::TraitItem::Fn(f) = ti {
            let fsel = format!("trait {}::{}", t.ident, f.sig.ident);
            if self.is_dropped(&format!("fn {fsel}")) {
              self.drop_item(&format!("fn {fsel}"), br(f));
              continue;
            }
            self.attrs(&f.attrs, None);
            self.func(&fsel, br(f), &f.sig, f.default.as_ref(), f.semi_token.map(|s| br(&s).start));
          }
        }
      }
      syn::Item::Impl(im) => {
        let ty = type_name(&im.self_ty);
        let tr = im
          .trait_
          .as_ref()
          .map(|(_, p, _)| p.segments.last().map(|s| s.ident.to_string()).unwrap_or_default());
        let base = match &tr {
          Some(t) => format!("{t}@{ty}"),
          None => ty.clone(),
        };
        let isel = if tr.is_some() { self.uniq(format!("impl {base}")) } else { format!("impl {base}") };
        let base = isel["impl ".len()..].to_owned();
        let policy = match &tr {
          Some(t) => ["Debug", "Error", "IsEnabled"].contains(&t.as_str()) || (t == "Display" && !self.b.fmt),
          None => false,
        };
        // `drop impl` with only-lists: an impl is kept when it or one of its functions is listed
        let any_only = self.b.only.iter().any(|o| {
          o == &isel || o.strip_prefix("fn ").is_some_and(|f| f.starts_with(&format!("{base}::")))
        });
        let drop = if self.b.only.is_empty() {
          (policy && !self.b.only.iter().any(|x| *x == isel)) || self.is_dropped(&isel)
        } else {
          !any_only
        };
        if drop {
          self.drop_item(&isel, r);
          return;
        }
        let all_of_it = self.b.only.iter().position(|o| o == &isel);
        if let Some(i) = all_of_it {
          self.only_used.insert(i);
        }
        self.attrs(&im.attrs, None);
        self.extra_attr(&isel, r.start);
        self.inject(&isel, im.brace_token.span.open().byte_range().end);
        let inherent = self.b.inherent.contains(&base);
        if let (true, Some((_, p, f))) = (inherent, &im.trait_) {
          self.del(br(p).start..br(f).end);
          self.rewrites.push(json!({"impl": base, "made": "inherent"}));
        }
        for ii in &im.items {
          match ii {
            syn::ImplItem::Fn(f) => {
              let fsel0 = format!("{base}::{}", f.sig.ident);
              let fsel = self.uniq(fsel0);
              if all_of_it.is_none() && self.is_dropped(&format!("fn {fsel}")) {
                self.drop_item(&format!("fn {fsel}"), br(f));
                continue;
              }
              self.attrs(&f.attrs, None);
              if tr.is_none() || inherent {
                self.vis(&f.vis, self.sig_start(&f.sig));
              }
              self.func(&fsel, br(f), &f.sig, Some(&f.block), None);
            }
            syn::ImplItem::Type(t) if inherent => self.del(br(t)),
            syn::ImplItem::Const(c) => {
              if tr.is_none() {
                self.vis(&c.vis, br(&c.const_token).start);
              }
            }
            _ => {}
          }
        }
      }
      _ => self.drop_item("other item", r),
    }
  }

  fn sig_start(&self, sig: &syn::Signature) -> usize {
    if let Some(c) = &sig.constness {
      return br(c).start;
    }
    if let Some(c) = &sig.asyncness {
      return br(c).start;
    }
    if let Some(c) = &sig.unsafety {
      return br(c).start;
    }
    br(&sig.fn_token).start
  }

  fn func(
    &mut self,
    sel: &str,
    range: Range<usize>,
    sig: &syn::Signature,
    block: Option<&syn::Block>,
    semi: Option<usize>,
  ) {
    let mut body = Body::default();
    if let Some(b) = block {
      body.visit_block(b);
    }
    for a in std::mem::take(&mut body.attrs) {
      self.del(a);
    }
    let sig_text = norm(&self.src[br(sig)]);
    let calls: BTreeSet<String> = body.calls.iter().map(|x| x.0.clone()).collect();
    let ov = self.b.fns.get_mut(sel).map(|o| {
      o.used = true;
      o.clone()
    });
    let external = self.external.contains(sel)
      || ov.as_ref().is_some_and(|o| o.attrs.iter().any(|a| a.contains("external")));
    self.facts.push(json!({
      "fn": sel, "sig": sig_text, "loops": body.loops.iter().map(|l| l.kind).collect::<Vec<_>>(), "closures": body.closures.len(),
      "calls": calls, "contract": ov.as_ref().is_some_and(|o| !o.spec.trim().is_empty()),
      "overlay": ov.is_some(), "external": external, "has_body": block.is_some(),
      "file": self.b.path,
      "body": block.map(|b| norm(&self.src[br(b)])).unwrap_or_default(),
    }));
    self.ins(range.start, format!("/*@fn {}|{sel}*/ ", self.b.path), -10);
    self.ins(range.end, "/*@endfn*/".to_owned(), 10);
    // inserted before the signature proper, i.e. after doc comments and attributes
    let hidden = self.b.hidden.iter().any(|x| x == sel);
    let mut attrs: Vec<String> = ov.as_ref().map(|o| o.attrs.clone()).unwrap_or_default();
    if self.external.contains(sel) && !hidden {
      attrs.push("#[verifier::external_body]".to_owned());
    }
    for a in attrs {
      self.ins(range.start, format!("{a} "), -5);
    }
    // `mut self` is not supported by the verifier: bind it to a mutable local instead
    if let (Some(syn::FnArg::Receiver(rc)), Some(b)) = (sig.inputs.first(), block) {
      if let (None, Some(m), true) = (&rc.reference, &rc.mutability, rc.colon_token.is_none()) {
        self.del(br(m));
        let bp = br(b);
        self.ins(bp.start + 1, " let mut self_v = self; ".to_owned(), -9);
        let mut v = Vec::new();
        self_tokens(quote::ToTokens::to_token_stream(b), &mut v);
        for r in v {
          self.edits.push(Edit { range: r, text: "self_v".to_owned(), prio: 0 });
        }
        self.rewrites.push(json!({"fn": sel, "mut self": "bound to a mutable local"}));
      }
    }
    // patterns as parameters are not supported by the verifier: name the parameter, destructure in the body
    for (n, i) in sig.inputs.iter().enumerate() {
      let syn::FnArg::Typed(t) = i else { continue };
      if let (false, Some(b)) = (matches!(&*t.pat, syn::Pat::Ident(_)), block) {
        let pr = br(&t.pat);
        let text = self.src[pr.clone()].to_owned();
        self.edits.push(Edit { range: pr, text: format!("arg_{n}"), prio: 0 });
        if text != "_" {
          self.ins(br(b).start + 1, format!(" let {text} = arg_{n}; "), -8);
        }
        self.rewrites.push(json!({"fn": sel, "parameter pattern": text}));
      }
    }
    // patterns `&x` are not supported by the verifier: bind the reference, copy out of it
    if !external {
      for (r, n, at, is_block) in std::mem::take(&mut body.refs) {
        self.edits.push(Edit { range: r, text: n.clone(), prio: 0 });
        if is_block {
          self.ins(at.start + 1, format!(" let {n} = *{n}; "), -9);
        } else {
          self.ins(at.start, format!("{{ let {n} = *{n}; "), -9);
          self.ins(at.end, " }".to_owned(), 9);
        }
        self.rewrites.push(json!({"fn": sel, "reference pattern": n}));
      }
    }
    // a newtype's name as a function is written out
    let ty = sel.split_once("::").map(|x| x.0.rsplit('@').next().unwrap_or_default().to_owned());
    for (r, n) in &body.ctors {
      let name = if n == "Self" { ty.clone().unwrap_or_default() } else { n.clone() };
      if let Some(t) = self.newtypes.get(&name) {
        let text = format!("(|x_f: {t}| -> (x_r: {name}) ensures x_r == {name}(x_f) {{ {name}(x_f) }})");
        self.edits.push(Edit { range: r.clone(), text, prio: 0 });
        self.rewrites.push(json!({"fn": sel, "constructor as a function": name}));
      }
    }
    let Some(ov) = ov else { return };
    if let Some(r) = &ov.ret {
      match &sig.output {
        syn::ReturnType::Type(_, t) => {
          let tr = br(t);
          self.ins(tr.start, format!("({r}: "), -2);
          self.ins(tr.end, ")".to_owned(), -2);
        }
        syn::ReturnType::Default => {}
      }
    }
    let spec_pos = match (block, semi) {
      (Some(b), _) => br(b).start,
      (None, Some(s)) => s,
      _ => return,
    };
    if !ov.spec.trim().is_empty() {
      self.ins(spec_pos, format!("\n{}\n", ov.spec), -1);
    }
    let Some(block) = block else { return };
    let blk = br(block);
    let tail = tail_of(block).map(|r| r.start);
    if self.canary && !external && !ov.nocanary && !ov.spec.trim().is_empty() {
      let n = self.canaries_next();
      self.ins(blk.start + 1, format!(" proof {{ assert(crate::vcanary({n})); }} "), -4);
      if body.rets.is_empty() || tail.is_some() {
        let n = self.canaries_next();
        let pos = tail.unwrap_or(blk.end - 1);
        self.ins(pos, format!(" proof {{ assert(crate::vcanary({n})); }} "), 5);
      }
    }
    for (n, (it, wrap, inv)) in &ov.loops {
      let Some(l) = body.loops.get(*n) else {
        self.lost.push(format!("{sel}: loop {n}"));
        continue;
      };
      let (fe, bstart) = (l.for_expr.clone(), l.body.start);
      // `for P in E { B }` as what it stands for (Verus has no `continue` in `for` loops):
      // `{ let mut IT = x_manual(E); loop { match IT.next() { Some(P) => { B } None => break } } }`
      if let (Some("manual"), Some(p), Some(pat)) = (wrap.as_deref(), fe.clone(), l.for_pat.clone()) {
        let it = it.clone().unwrap_or_else(|| die("manual loops need a name"));
        let pat_text = self.src[pat.clone()].to_owned();
        if l.full.start != l.stmt.start {
          // labelled, or not a statement
          self.lost.push(format!("{sel}: loop {n} is not a plain statement"));
          continue;
        }
        self.edits.push(Edit { range: l.full.start..p.start, text: format!("let mut {it} = XManual::x_manual("), prio: 0 });
        self.ins(p.end, format!("); loop\n{inv}\n{{ match {it}.next() {{ None => break, Some({pat_text}) => "), -3);
        self.ins(l.body.end, " } } ".to_owned(), 0);
        self.rewrites.push(json!({"fn": sel, "loop": n, "wrap": "manual"}));
        if self.canary && !ov.nocanary && !external {
          let n = self.canaries_next();
          self.ins(bstart + 1, format!(" proof {{ assert(crate::vcanary({n})); }} "), -4);
        }
        continue;
      }
      if let (Some(it), Some(p)) = (it, fe.clone()) {
        self.ins(p.start, format!("{it}: "), 0);
      }
      if let (Some(w), Some(p)) = (wrap, fe) {
        self.ins(p.start, format!("{w}("), 1);
        self.ins(p.end, ")".to_owned(), -3);
        self.rewrites.push(json!({"fn": sel, "loop": n, "wrap": w}));
      }
      self.ins(bstart, format!("\n{inv}\n"), 0);
      if self.canary && !ov.nocanary && !external {
        let n = self.canaries_next();
        self.ins(bstart + 1, format!(" proof {{ assert(crate::vcanary({n})); }} "), -4);
      }
    }
    for (n, (head, spec)) in &ov.closures {
      let Some(c) = body.closures.get(*n) else {
        self.lost.push(format!("{sel}: closure {n}"));
        continue;
      };
      let mut h = head.clone();
      let mut spec = spec.clone();
      let mut lets = String::new();
      for (k, p) in c.inputs.iter().enumerate() {
        let text = self.src[p.clone()].to_owned();
        match &c.names[k] {
          Some(name) => {
            h = h.replace(&format!("${k}"), &text);
            spec = spec.replace(&format!("${k}"), name);
          }
          // a pattern: the parameter gets a name, and the pattern is bound at the start of the body
          None => {
            h = h.replace(&format!("${k}"), &format!("arg_{k}"));
            spec = spec.replace(&format!("${k}"), &format!("arg_{k}"));
            lets += &match text.strip_prefix('&') {
              Some(t) if !t.starts_with('&') => format!(" let {t} = *arg_{k}; "),
              _ => format!(" let {text} = arg_{k}; "),
            };
          }
        }
      }
      if h.contains('$') || spec.contains('$') {
        self.lost.push(format!("{sel}: closure {n} parameters"));
        continue;
      }
      let range = c.head.clone();
      let (b, is_block) = (c.body.clone(), c.is_block);
      let spec = if spec.trim().is_empty() { String::new() } else { format!("\n{spec}\n") };
      self.edits.push(Edit { range, text: format!("{h}{spec}"), prio: 0 });
      if !is_block {
        self.ins(b.start, format!(" {{ {lets}"), -3);
        self.ins(b.end, " }".to_owned(), 3);
      } else if !lets.is_empty() {
        self.ins(b.start + 1, lets, -8);
      }
    }
    // a closure's body becomes a function of its own (its captures become parameters)
    for (n, (expr, head)) in &ov.lifts {
      let Some(c) = body.closures.get(*n) else {
        self.lost.push(format!("{sel}: lift {n}"));
        continue;
      };
      let id = self.lifts.len();
      let fsel = format!("{sel}#lift{n}");
      let mut attr = "";
      if self.external.contains(&fsel) {
        attr = "#[verifier::external_body] ";
      }
      let cr = c.full.start..c.body.end;
      let (b, is_block) = (c.body.clone(), c.is_block);
      self.ins(cr.start, format!("/*@L<{id}*/"), -20);
      self.ins(b.start, format!("/*@LB{id}*/{}", if is_block { "" } else { "{ " }), -20);
      self.ins(cr.end, format!("{}/*@L>{id}*/", if is_block { "" } else { " }" }), 20);
      if self.canary && !external && is_block {
        let n = self.canaries_next();
        self.ins(b.start + 1, format!(" proof {{ assert(crate::vcanary({n})); }} "), -4);
      }
      self.facts.push(json!({
        "fn": fsel, "sig": "closure", "loops": [], "closures": 0, "calls": [], "contract": true, "overlay": true,
        "external": self.external.contains(&fsel), "has_body": true, "file": self.b.path, "body": norm(&self.src[b]),
      }));
      self.lifts.push((expr.clone(), format!("\n/*@fn {}|{fsel}*/ {attr}{head}\n", self.b.path)));
      self.rewrites.push(json!({"fn": sel, "closure": n, "lifted": expr}));
    }
    for (pos, text) in &ov.at {
      let ws: Vec<&str> = pos.split_whitespace().collect();
      let p = match ws.as_slice() {
        ["first"] => Some((blk.start + 1, -12)),
        ["start"] => Some((blk.start + 1, 0)),
        ["end"] => Some((blk.end - 1, 0)),
        ["tail"] => Some((tail.unwrap_or(blk.end - 1), 0)),
        ["loop", n, w] => n.parse::<usize>().ok().and_then(|n| body.loops.get(n)).map(|l| match *w {
          "start" => (l.body.start + 1, 0),
          "end" => (l.body_tail.clone().map_or(l.body.end - 1, |_| l.body.end - 1), 0),
          "tail" => (l.body_tail.clone().map_or(l.body.end - 1, |t| t.start), 0),
          "before" => (l.stmt.start, -1),
          "after" => (l.stmt.end, 1),
          _ => die(&format!("bad anchor {pos}")),
        }),
        ["call", name, k, w] => {
          let k: usize = k.parse().unwrap_or_else(|_| die("call NAME K"));
          body.calls.iter().filter(|c| c.0 == *name).nth(k).map(|c| match *w {
            "before" => (c.1.start, -1),
            "after" => (c.1.end, 1),
            _ => die(&format!("bad anchor {pos}")),
          })
        }
        [what @ ("continue" | "break"), k, w] => {
          let k: usize = k.parse().unwrap_or_else(|_| die("continue K"));
          let v = if *what == "continue" { &body.continues } else { &body.breaks };
          v.get(k).map(|c| match *w {
            "before" => (c.start, -1),
            _ => die(&format!("bad anchor {pos}")),
          })
        }
        ["block", k, w] => {
          let k: usize = k.parse().unwrap_or_else(|_| die("block K"));
          body.blocks.get(k).map(|(b, t)| match *w {
            "start" => (b.start + 1, 0),
            "end" => (b.end - 1, 0),
            "tail" => (t.clone().map_or(b.end - 1, |t| t.start), 0),
            _ => die(&format!("bad anchor {pos}")),
          })
        }
        ["return", k, w] => {
          let k: usize = k.parse().unwrap_or_else(|_| die("return K"));
          body.rets.get(k).map(|c| match *w {
            "before" => (c.start, -1),
            _ => die(&format!("bad anchor {pos}")),
          })
        }
        _ => die(&format!("bad anchor {pos}")),
      };
      match p {
        Some((p, prio)) => self.ins(p, format!("\n{text}\n"), prio),
        None => self.lost.push(format!("{sel}: at {pos}")),
      }
    }
  }
  fn canaries_next(&mut self) -> usize {
    *self.canaries += 1;
    *self.canaries
  }
}

fn self_tokens(ts: proc_macro2::TokenStream, out: &mut Vec<Range<usize>>) {
  for t in ts {
    match t {
      proc_macro2::TokenTree::Ident(i) if i == "self" => out.push(i.span().byte_range()),
      proc_macro2::TokenTree::Group(g) => self_tokens(g.stream(), out),
      _ => {}
    }
  }
}

enum Piece {
  Lit(String),
  Arg(String),
}

/// The pieces of a format string with its arguments, or None if it uses anything but plain `{}`.
fn fmt_pieces(lit: &str, args: &[String]) -> Option<Vec<Piece>> {
  let mut out = Vec::new();
  let mut cur = String::new();
  let mut next = 0;
  let mut cs = lit.chars().peekable();
  while let Some(c) = cs.next() {
    match c {
      '{' if cs.peek() == Some(&'{') => {
        cs.next();
        cur.push('{');
      }
      '}' if cs.peek() == Some(&'}') => {
        cs.next();
        cur.push('}');
      }
      '{' => {
        let mut name = String::new();
        loop {
          match cs.next()? {
            '}' => break,
            ':' => return None,
            c => name.push(c),
          }
        }
        if !cur.is_empty() {
          out.push(Piece::Lit(std::mem::take(&mut cur)));
        }
        let name = name.trim();
        if name.is_empty() {
          out.push(Piece::Arg(args.get(next)?.clone()));
          next += 1;
        } else if let Ok(n) = name.parse::<usize>() {
          out.push(Piece::Arg(args.get(n)?.clone()));
        } else {
          out.push(Piece::Arg(name.to_owned()));
        }
      }
      '}' => return None,
      c => cur.push(c),
    }
  }
  if !cur.is_empty() {
    out.push(Piece::Lit(cur));
  }
  Some(out)
}

struct FmtMacros<'s> {
  src: &'s str,
  edits: Vec<(Range<usize>, String)>,
  names: Vec<String>,
}

impl<'a> Visit<'a> for FmtMacros<'_> {
  fn visit_macro(&mut self, m: &'a syn::Macro) {
    let name = m.path.segments.last().map(|s| s.ident.to_string()).unwrap_or_default();
    if name != "write" && name != "format" && name != "format_ident" {
      return;
    }
    let parse = syn::punctuated::Punctuated::<syn::Expr, syn::Token![,]>::parse_terminated;
    let Ok(args) = m.parse_body_with(parse) else { return };
    let mut args: Vec<&syn::Expr> = args.iter().collect();
    let dst = if name == "write" {
      if args.is_empty() {
        return;
      }
      self.src[br(args.remove(0))].to_owned()
    } else {
      "x_s".to_owned()
    };
    if args.is_empty() || args.iter().any(|a| matches!(a, syn::Expr::Assign(_))) {
      return;
    }
    let syn::Expr::Lit(syn::ExprLit { lit: syn::Lit::Str(lit), .. }) = args.remove(0) else { return };
    let texts: Vec<String> = args.iter().map(|a| self.src[br(*a)].to_owned()).collect();
    let Some(ps) = fmt_pieces(&lit.value(), &texts) else { return };
    let text = if name == "write" {
      let mut s = String::from("Ok(())");
      for p in ps.iter().rev() {
        let call = match p {
          Piece::Lit(l) => format!("x_write_str({dst}, {l:?})"),
          Piece::Arg(e) => format!("x_write_arg({dst}, &({e}))"),
        };
        s = format!("match {call} {{ Ok(()) => {s}, Err(x_e) => Err(x_e) }}");
      }
      format!("({s})")
    } else {
      let mut s = String::from("{ let mut x_s = x_new_string();");
      let push = if name == "format" { "x_push_arg" } else { "x_push_ident_arg" };
      for p in &ps {
        s.push_str(&match p {
          Piece::Lit(l) => format!(" x_s.push_str({l:?});"),
          Piece::Arg(e) => format!(" {push}(&mut x_s, &({e}));"),
        });
      }
      s + if name == "format" { " x_s }" } else { " x_mk_ident(x_s) }" }
    };
    self.names.push(self.src[br(m)].to_owned());
    self.edits.push((br(m), text));
  }
}

/// `write!` and `format!` with plain `{}` pieces, written out as the calls they stand for.
fn expand_fmt(src: &str) -> (String, Vec<String>) {
  let Ok(file) = syn::parse_file(src) else { return (src.to_owned(), Vec::new()) };
  let mut v = FmtMacros { src, edits: Vec::new(), names: Vec::new() };
  v.visit_file(&file);
  let (mut edits, names) = (v.edits, v.names);
  edits.sort_by_key(|e| std::cmp::Reverse(e.0.start));
  let mut s = src.to_owned();
  for (r, t) in edits {
    s.replace_range(r, &t);
  }
  (s, names)
}

/// Writes out the calls, as items, of macros of the same file that have one arm and no repetitions.
fn expand_items(src: &str) -> (String, Vec<String>) {
  use proc_macro2::{TokenStream, TokenTree};
  use syn::spanned::Spanned;
  fn name(m: &syn::Macro) -> String {
    m.path.segments.last().map(|s| s.ident.to_string()).unwrap_or_default()
  }
  fn one(toks: &[TokenTree], binds: &mut BTreeMap<String, String>, call: &[TokenTree]) -> Option<()> {
    let (mut i, mut j) = (0, 0);
    while i < toks.len() {
      let c = call.get(j)?;
      match &toks[i] {
        TokenTree::Punct(p) if p.as_char() == '$' => {
          let (TokenTree::Ident(n), TokenTree::Ident(_)) = (toks.get(i + 1)?, toks.get(i + 3)?) else { return None };
          binds.insert(n.to_string(), c.to_string());
          i += 4;
        }
        t if t.to_string() == c.to_string() => i += 1,
        _ => return None,
      }
      j += 1;
    }
    (j == call.len()).then_some(())
  }
  fn subst(ts: TokenStream, binds: &BTreeMap<String, String>, out: &mut Vec<(std::ops::Range<usize>, String)>) -> Option<()> {
    let ts: Vec<TokenTree> = ts.into_iter().collect();
    for (i, t) in ts.iter().enumerate() {
      match t {
        TokenTree::Group(g) => subst(g.stream(), binds, out)?,
        TokenTree::Punct(p) if p.as_char() == '$' => {
          let n = ts.get(i + 1)?;
          let at = p.span().byte_range().start..n.span().byte_range().end;
          out.push((at, binds.get(&n.to_string())?.clone()));
        }
        _ => {}
      }
    }
    Some(())
  }
  let Ok(file) = syn::parse_file(src) else { return (src.to_owned(), Vec::new()) };
  let mut defs: BTreeMap<String, (Vec<TokenTree>, proc_macro2::Group)> = BTreeMap::new();
  let mut edits: Vec<(std::ops::Range<usize>, String)> = Vec::new();
  let mut names = Vec::new();
  for i in &file.items {
    let syn::Item::Macro(m) = i else { continue };
    if name(&m.mac) != "macro_rules" {
      continue;
    }
    let Some(id) = &m.ident else { continue };
    let ts: Vec<TokenTree> = m.mac.tokens.clone().into_iter().collect();
    let arms = ts.iter().filter(|t| matches!(t, TokenTree::Group(_))).count();
    if let (2, Some(TokenTree::Group(a)), Some(TokenTree::Group(b))) = (arms, ts.first(), ts.get(3)) {
      defs.insert(id.to_string(), (a.stream().into_iter().collect(), b.clone()));
      edits.push((i.span().byte_range(), String::new()));
    }
  }
  for i in &file.items {
    let syn::Item::Macro(m) = i else { continue };
    let Some((pat, body)) = defs.get(&name(&m.mac)) else { continue };
    if m.ident.is_some() {
      continue;
    }
    let call: Vec<TokenTree> = m.mac.tokens.clone().into_iter().collect();
    let (mut binds, mut inner) = (BTreeMap::new(), Vec::new());
    if one(pat, &mut binds, &call).is_none() || subst(body.stream(), &binds, &mut inner).is_none() {
      return (src.to_owned(), Vec::new());
    }
    let r = body.span().byte_range();
    let (lo, hi) = (r.start + 1, r.end - 1);
    let mut t = src[lo..hi].to_owned();
    inner.sort_by_key(|e| std::cmp::Reverse(e.0.start));
    for (r, x) in inner {
      t.replace_range(r.start - lo..r.end - lo, &x);
    }
    names.push(src[br(&m.mac)].to_owned());
    edits.push((i.span().byte_range(), t));
  }
  edits.sort_by_key(|e| std::cmp::Reverse(e.0.start));
  let mut s = src.to_owned();
  for (r, t) in edits {
    s.replace_range(r, &t);
  }
  (s, names)
}

/// A template of `quote!`, flattened.
#[derive(Debug, PartialEq)]
enum Tmpl {
  Text(String),
  Var(String),
  /// before, variable, after, separator
  Rep(String, String, String, String),
  /// an expression (only in `quote_spec!`)
  Expr(String),
}

fn tmpl_text(out: &mut Vec<Tmpl>, glue: &mut bool, t: &str, joint: bool) {
  match out.last_mut() {
    Some(Tmpl::Text(s)) => {
      if !*glue {
        s.push(' ');
      }
      s.push_str(t);
    }
    _ => out.push(Tmpl::Text(t.to_owned())),
  }
  *glue = joint;
}

fn tmpl(ts: proc_macro2::TokenStream, spec: bool, out: &mut Vec<Tmpl>, glue: &mut bool) -> Option<()> {
  use proc_macro2::{Delimiter, Spacing, TokenTree};
  let ts: Vec<TokenTree> = ts.into_iter().collect();
  let mut i = 0;
  while i < ts.len() {
    match (&ts[i], ts.get(i + 1)) {
      (TokenTree::Punct(p), Some(TokenTree::Ident(id))) if p.as_char() == '#' => {
        out.push(Tmpl::Var(id.to_string()));
        *glue = false;
        i += 2;
        continue;
      }
      (TokenTree::Punct(p), Some(TokenTree::Group(g))) if p.as_char() == '#' && spec && g.delimiter() == Delimiter::Brace => {
        out.push(Tmpl::Expr(g.stream().to_string()));
        *glue = false;
        i += 2;
        continue;
      }
      (TokenTree::Punct(p), Some(TokenTree::Group(g))) if p.as_char() == '#' && !spec && g.delimiter() == Delimiter::Parenthesis => {
        let mut inner = Vec::new();
        tmpl(g.stream(), spec, &mut inner, &mut false)?;
        let (mut pre, mut var, mut post) = (String::new(), None, String::new());
        for t in inner {
          match t {
            Tmpl::Text(s) if var.is_none() => pre = s,
            Tmpl::Text(s) => post = s,
            Tmpl::Var(v) if var.is_none() => var = Some(v),
            _ => return None,
          }
        }
        let mut sep = String::new();
        i += 2;
        while let Some(TokenTree::Punct(p)) = ts.get(i) {
          i += 1;
          if p.as_char() == '*' {
            break;
          }
          sep.push(p.as_char());
        }
        out.push(Tmpl::Rep(pre, var?, post, sep));
        *glue = false;
        continue;
      }
      _ => {}
    }
    match &ts[i] {
      TokenTree::Group(g) => {
        let (a, b) = match g.delimiter() {
          Delimiter::Parenthesis => ("(", ")"),
          Delimiter::Brace => ("{", "}"),
          Delimiter::Bracket => ("[", "]"),
          Delimiter::None => return None,
        };
        tmpl_text(out, glue, a, false);
        tmpl(g.stream(), spec, out, glue)?;
        tmpl_text(out, glue, b, false);
      }
      TokenTree::Punct(p) => tmpl_text(out, glue, &p.as_char().to_string(), p.spacing() == Spacing::Joint),
      t => tmpl_text(out, glue, &t.to_string(), false),
    }
    i += 1;
  }
  Some(())
}

struct QuoteMacros<'s> {
  src: &'s str,
  edits: Vec<(Range<usize>, String)>,
  names: Vec<String>,
}

impl<'a> Visit<'a> for QuoteMacros<'_> {
  fn visit_macro(&mut self, m: &'a syn::Macro) {
    if m.path.segments.last().is_none_or(|s| s.ident != "quote") {
      return;
    }
    let mut out = Vec::new();
    if tmpl(m.tokens.clone(), false, &mut out, &mut false).is_none() {
      return;
    }
    let mut s = String::from("{ let mut x_q = crate::proc_macro2::TokenStream::new();");
    for t in &out {
      s.push_str(&match t {
        Tmpl::Text(t) => format!(" x_q.lit({t:?});"),
        Tmpl::Var(v) => format!(" x_q.put(&{v});"),
        Tmpl::Rep(a, v, b, c) => format!(" {v}.q_rep(&mut x_q, {a:?}, {b:?}, {c:?});"),
        Tmpl::Expr(_) => return,
      });
    }
    s.push_str(" x_q }");
    let r = br(m);
    let text = &self.src[r.clone()];
    // the same number of lines, and what was there
    self.names.push(text.split_whitespace().take(8).collect::<Vec<_>>().join(" "));
    self.edits.push((r, s));
  }
}

/// `quote!` written out: one call per stretch of literal tokens, per interpolated variable, and per repetition
fn expand_quote(src: &str) -> (String, Vec<String>) {
  let Ok(file) = syn::parse_file(src) else { return (src.to_owned(), Vec::new()) };
  let mut v = QuoteMacros { src, edits: Vec::new(), names: Vec::new() };
  v.visit_file(&file);
  let (mut edits, names) = (v.edits, v.names);
  edits.sort_by_key(|e| std::cmp::Reverse(e.0.start));
  let mut s = src.to_owned();
  for (r, t) in edits {
    s.replace_range(r, &t);
  }
  (s, names)
}

/// `quote_spec! { .. }` of an overlay: the same template as a sequence of tokens; `#{e}` is the sequence `e`
fn expand_quote_spec(ov: &str) -> String {
  let mut out = String::new();
  let mut rest = ov;
  while let Some(k) = rest.find("quote_spec! {") {
    out.push_str(&rest[..k]);
    let from = k + "quote_spec! ".len();
    let mut depth = 0;
    let mut end = from;
    for (i, c) in rest[from..].char_indices() {
      match c {
        '{' => depth += 1,
        '}' => depth -= 1,
        _ => {}
      }
      if depth == 0 {
        end = from + i;
        break;
      }
    }
    let inner = &rest[from + 1..end];
    let ts: proc_macro2::TokenStream = inner.parse().unwrap_or_else(|e| die(&format!("quote_spec: {e}")));
    let mut t = Vec::new();
    tmpl(ts, true, &mut t, &mut false).unwrap_or_else(|| die("quote_spec"));
    let mut s = String::from("Seq::<crate::Tok>::empty()");
    for x in &t {
      match x {
        Tmpl::Text(l) => s.push_str(&format!(".push(crate::Tok::Text({l:?}@))")),
        Tmpl::Var(v) => s.push_str(&format!(".add({v})")),
        Tmpl::Expr(e) => s.push_str(&format!(".add({e})")),
        Tmpl::Rep(..) => die("quote_spec: repetition"),
      }
    }
    out.push_str(&s);
    for _ in 0..inner.matches('\n').count() {
      out.push('\n');
    }
    rest = &rest[end + 1..];
  }
  out.push_str(rest);
  out
}

struct Eager<'s> {
  f: &'s str,
  k: usize,
  inside: bool,
  found: Option<(Range<usize>, Range<usize>, Range<usize>, Range<usize>)>,
}

impl<'a> Visit<'a> for Eager<'_> {
  fn visit_item_fn(&mut self, i: &'a syn::ItemFn) {
    if i.sig.ident == self.f {
      self.inside = true;
      syn::visit::visit_item_fn(self, i);
      self.inside = false;
    }
  }
  fn visit_expr_method_call(&mut self, e: &'a syn::ExprMethodCall) {
    syn::visit::visit_expr_method_call(self, e);
    if !self.inside || e.method != "map" || e.args.len() != 1 {
      return;
    }
    let Some(syn::Expr::Closure(c)) = e.args.first() else { return };
    if c.inputs.len() != 1 {
      return;
    }
    if self.k == 0 {
      self.found = Some((br(e), br(&e.receiver), br(&c.inputs[0]), br(&c.body)));
    }
    self.k = self.k.wrapping_sub(1);
  }
}

/// The k-th `.map(closure)` of a function as a loop that fills a `Vec`: for closures with state, which no other code
/// can touch between the making of the iterator and its use (they hold the borrow).
fn eager(src: &str, f: &str, k: usize, t: &str) -> Option<String> {
  let file = syn::parse_file(src).ok()?;
  let mut v = Eager { f, k, inside: false, found: None };
  v.visit_file(&file);
  let (all, recv, pat, body) = v.found?;
  let (recv, pat, body) = (&src[recv], &src[pat], &src[body]);
  let mut s = src.to_owned();
  s.replace_range(all, &format!("{{ let mut x_v: Vec<{t}> = Vec::new(); for {pat} in {recv} {{ let x_e = {body}; x_v.push(x_e); }} x_v }}"));
  Some(s)
}

/// Writes a function body as an expression of the specification language: `return`s inside `match` and `if` are
/// folded into their branches, string literals become their characters. Checked, not trusted: the function itself
/// is verified against the copy.
struct SpecCopy<'s> {
  src: &'s str,
  lits: Vec<String>,
}

/// evaluating it does nothing
fn idle(e: &syn::Expr) -> bool {
  match e {
    syn::Expr::Lit(_) | syn::Expr::Path(_) => true,
    syn::Expr::Paren(p) => idle(&p.expr),
    syn::Expr::Reference(r) => idle(&r.expr),
    syn::Expr::Tuple(t) => t.elems.iter().all(idle),
    _ => false,
  }
}

/// `_` or an identifier that says it is not used
fn underscored(p: &syn::Pat) -> bool {
  match p {
    syn::Pat::Wild(_) => true,
    syn::Pat::Type(t) => underscored(&t.pat),
    _ => false,
  }
}

impl SpecCopy<'_> {
  fn has_return<T: Spanned>(&self, t: &T) -> bool {
    self.src[br(t)].contains("return")
  }
  fn leaf(&mut self, e: &syn::Expr) -> Option<String> {
    if self.has_return(e) || self.src[br(e)].contains('?') {
      return None;
    }
    struct V<'a> {
      base: usize,
      at: Vec<(usize, String)>,
      d: std::marker::PhantomData<&'a ()>,
    }
    impl<'ast> syn::visit::Visit<'ast> for V<'_> {
      fn visit_lit_str(&mut self, l: &'ast syn::LitStr) {
        let r = br(l);
        self.at.push((r.end - self.base, l.value()));
      }
    }
    let r = br(e);
    let mut v = V { base: r.start, at: Vec::new(), d: std::marker::PhantomData };
    syn::visit::Visit::visit_expr(&mut v, e);
    let mut t = self.src[r].to_owned();
    v.at.sort();
    for (p, l) in v.at.into_iter().rev() {
      t.insert(p, '@');
      if !self.lits.contains(&l) {
        self.lits.push(l);
      }
    }
    Some(t)
  }
  /// `k`: what follows, as (pattern bound to the value, the rest)
  fn expr(&mut self, e: &syn::Expr, k: Option<&(String, String)>) -> Option<String> {
    match e {
      syn::Expr::Return(r) => self.expr(r.expr.as_ref()?, None),
      syn::Expr::Paren(p) => self.expr(&p.expr, k),
      syn::Expr::Block(b) => self.stmts(&b.block.stmts, k),
      syn::Expr::Match(m) => {
        let scrut = self.leaf(&m.expr)?;
        let mut t = format!("match {scrut} {{");
        for a in &m.arms {
          let pat = &self.src[br(&a.pat)];
          let guard = match &a.guard {
            Some((_, g)) => format!(" if {}", self.leaf(g)?),
            None => String::new(),
          };
          let body = self.expr(&a.body, k)?;
          t.push_str(&format!(" {pat}{guard} => {{ {body} }}"));
        }
        t.push_str(" }");
        Some(t)
      }
      syn::Expr::If(i) if !matches!(*i.cond, syn::Expr::Let(_)) => {
        let c = self.leaf(&i.cond)?;
        let th = self.stmts(&i.then_branch.stmts, k)?;
        let el = self.expr(&i.else_branch.as_ref()?.1, k)?;
        Some(format!("if {c} {{ {th} }} else {{ {el} }}"))
      }
      _ => {
        let v = self.leaf(e)?;
        Some(match k {
          None => v,
          Some((p, rest)) => format!("let {p} = {v}; {rest}"),
        })
      }
    }
  }
  fn stmts(&mut self, ss: &[syn::Stmt], k: Option<&(String, String)>) -> Option<String> {
    match ss {
      [syn::Stmt::Expr(e, _)] => self.expr(e, k),
      // statements that do nothing
      [syn::Stmt::Expr(e, Some(_)), rest @ ..] if idle(e) => self.stmts(rest, k),
      [syn::Stmt::Local(l), rest @ ..] if underscored(&l.pat) && l.init.as_ref().is_some_and(|i| idle(&i.expr)) => self.stmts(rest, k),
      [syn::Stmt::Local(l), rest @ ..] => {
        let rest = self.stmts(rest, k)?;
        let init = l.init.as_ref()?;
        if init.diverge.is_some() {
          return None;
        }
        let pat = match &l.pat {
          syn::Pat::Type(t) => &t.pat,
          p => p,
        };
        let p = self.src[br(pat)].to_owned();
        self.expr(&init.expr, Some(&(p, rest)))
      }
      [syn::Stmt::Expr(syn::Expr::If(i), _), rest @ ..] if i.else_branch.is_none() => {
        let c = self.leaf(&i.cond)?;
        let [.., syn::Stmt::Expr(syn::Expr::Return(_), _)] = &i.then_branch.stmts[..] else { return None };
        let th = self.stmts(&i.then_branch.stmts, None)?;
        let el = self.stmts(rest, k)?;
        Some(format!("if {c} {{ {th} }} else {{ {el} }}"))
      }
      _ => None,
    }
  }
}

/// `//@spec-copy PATH FN NAME(params) -> RET`
fn spec_copy(repo: &str, l: &str, lost: &mut Vec<String>, rewrites: &mut Vec<Value>) -> (String, String, Vec<String>) {
  let mut ws = l.trim().splitn(3, ' ');
  let (Some(path), Some(f), Some(sig)) = (ws.next(), ws.next(), ws.next()) else { die("spec-copy") };
  let name = sig.split('(').next().unwrap_or("").to_owned();
  let params: Vec<String> = sig[name.len() + 1..]
    .split(')')
    .next()
    .unwrap_or("")
    .split(',')
    .filter_map(|p| p.split(':').next().map(|x| x.trim().to_owned()))
    .filter(|p| !p.is_empty())
    .collect();
  let src = std::fs::read_to_string(std::path::Path::new(repo).join(path)).unwrap_or_default();
  let mut lits = Vec::new();
  let body = syn::parse_file(&src).ok().and_then(|file| {
    let it = file.items.iter().find_map(|i| match i {
      syn::Item::Fn(x) if x.sig.ident == f => Some(x.clone()),
      _ => None,
    })?;
    let mut sc = SpecCopy { src: &src, lits: Vec::new() };
    let e = sc.stmts(&it.block.stmts, None)?;
    lits = sc.lits;
    let mut lets = String::new();
    if it.sig.inputs.len() != params.len() {
      return None;
    }
    for (i, p) in it.sig.inputs.iter().zip(&params) {
      let syn::FnArg::Typed(t) = i else { return None };
      let n = src[br(&t.pat)].to_owned();
      if n != *p {
        lets.push_str(&format!("let {n} = {p}; "));
      }
    }
    Some(format!("{lets}{e}"))
  });
  match body {
    Some(b) => {
      rewrites.push(json!({"file": path, "specification copied from": f}));
      (format!("pub open spec fn {sig} {{ {b} }}"), name, lits)
    }
    None => {
      lost.push(format!("{path}: spec-copy {f}"));
      (format!("pub uninterp spec fn {sig};"), name, lits)
    }
  }
}

fn is_word(c: char) -> bool {
  c.is_alphanumeric() || c == '_'
}

/// textual replacement at word boundaries; returns the number of replacements
/// `NAME/FILE` of a dependency: its source in cargo's cache, of the version that a lock file says
fn dep_path(locks: &[std::path::PathBuf], p: &str) -> std::path::PathBuf {
  let (name, file) = p.split_once('/').unwrap_or_else(|| die("dep:NAME/FILE"));
  let home = std::env::var("CARGO_HOME").unwrap_or_else(|_| format!("{}/.cargo", std::env::var("HOME").unwrap_or_default()));
  let src = std::path::Path::new(&home).join("registry/src");
  for l in locks {
    let lock = std::fs::read_to_string(l).unwrap_or_default();
    let Some(version) = lock
      .split("[[package]]")
      .find(|b| b.contains(&format!("name = \"{name}\"\n")))
      .and_then(|b| b.split("version = \"").nth(1))
      .and_then(|b| b.split('"').next())
    else {
      continue;
    };
    for d in std::fs::read_dir(&src).into_iter().flatten().flatten() {
      let f = d.path().join(format!("{name}-{version}")).join(file);
      if f.exists() {
        return f;
      }
    }
  }
  src.join(p)
}

/// `replace_words` outside of literals and comments (what is quoted or documented stays)
fn replace_code(s: &str, a: &str, b: &str) -> (String, usize) {
  fn code(ts: proc_macro2::TokenStream, out: &mut BTreeSet<usize>) {
    for t in ts {
      match t {
        proc_macro2::TokenTree::Group(g) => code(g.stream(), out),
        proc_macro2::TokenTree::Ident(i) => {
          out.insert(i.span().byte_range().start);
        }
        _ => {}
      }
    }
  }
  let mut at = BTreeSet::new();
  match s.parse::<proc_macro2::TokenStream>() {
    Ok(ts) => code(ts, &mut at),
    Err(_) => return (s.to_owned(), 0),
  }
  let mut out = String::new();
  let (mut n, mut i) = (0, 0);
  for p in at {
    if s[p..].starts_with(a) {
      out.push_str(&s[i..p]);
      out.push_str(b);
      i = p + a.len();
      n += 1;
    }
  }
  out.push_str(&s[i..]);
  (out, n)
}

/// what the panicking macros become where a panic must not happen, and where it may
const PANICS: &[(&str, &str, &str)] = &[
  ("panic!", "never!", "diverge!"),
  ("unreachable!", "never!", "diverge!"),
  ("todo!", "never!", "diverge!"),
  ("unimplemented!", "never!", "diverge!"),
  ("assert!", "assert_holds!", "assert_or_diverge!"),
  ("assert_eq!", "assert_eq_holds!", "assert_eq_or_diverge!"),
  ("assert_ne!", "assert_ne_holds!", "assert_ne_or_diverge!"),
];

fn replace_words(s: &str, a: &str, b: &str) -> (String, usize) {
  let mut out = String::new();
  let mut n = 0;
  let mut rest = s;
  while let Some(i) = rest.find(a) {
    let before = rest[..i].chars().last().or(out.chars().last());
    let after = rest[i + a.len()..].chars().next();
    let ok = !(a.starts_with(is_word) && before.is_some_and(is_word))
      && !(a.ends_with(is_word) && after.is_some_and(is_word));
    out.push_str(&rest[..i]);
    if ok {
      out.push_str(b);
      n += 1;
    } else {
      out.push_str(a);
    }
    rest = &rest[i + a.len()..];
  }
  out.push_str(rest);
  (out, n)
}

fn main() {
  let args: Vec<String> = std::env::args().collect();
  if args.len() < 5 {
    die("usage");
  }
  let (overlay, repo, out, facts) = (&args[1], &args[2], &args[3], &args[4]);
  let canary = args.iter().any(|a| a == "--canary");
  let mut external = BTreeSet::new();
  let mut it = args.iter();
  while let Some(a) = it.next() {
    if a == "--external" {
      if let Some(x) = it.next() {
        external.insert(x.clone());
      }
    }
  }
  let ov = std::fs::read_to_string(overlay).unwrap_or_else(|e| die(&format!("{overlay}: {e}")));
  // //@include FILE (relative to the overlay's directory)
  let mut full = String::new();
  let dir = std::path::Path::new(overlay).parent().unwrap().to_owned();
  for l in ov.lines() {
    if let Some(p) = l.strip_prefix("//@include ") {
      let p = dir.join(p.trim());
      let t = std::fs::read_to_string(&p).unwrap_or_else(|e| die(&format!("{}: {e}", p.display())));
      full.push_str(&t);
      full.push('\n');
    } else {
      full.push_str(l);
      full.push('\n');
    }
  }
  let full = expand_quote_spec(&full);
  let lines: Vec<&str> = full.lines().collect();
  let mut res = String::new();
  let mut canaries = 0usize;
  let mut all_facts: Vec<Value> = Vec::new();
  let mut all_lost: Vec<String> = Vec::new();
  let mut all_dropped: Vec<String> = Vec::new();
  let mut rewrites: Vec<Value> = Vec::new();
  let mut all_lits: Vec<(String, Vec<String>)> = Vec::new();
  let mut i = 0;
  while i < lines.len() {
    let l = lines[i];
    if let Some(path) = l.strip_prefix("//@splice ") {
      let path = path.trim();
      let mut j = i + 1;
      let mut blk = Vec::new();
      while j < lines.len() && lines[j].trim() != "//@end" {
        blk.push((j, lines[j]));
        j += 1;
      }
      if j >= lines.len() {
        die("missing //@end");
      }
      i = j + 1;
      let mut b = parse_block(path, &blk);
      let full = match path.strip_prefix("dep:") {
        Some(p) => dep_path(&[std::path::Path::new(repo).join("Cargo.lock"), dir.join("../replay/Cargo.lock")], p),
        None => std::path::Path::new(repo).join(path),
      };
      let mut src = match std::fs::read_to_string(&full) {
        Ok(s) => s,
        Err(e) => {
          all_lost.push(format!("{path}: {e}"));
          continue;
        }
      };
      for (a, c) in &b.rewrite {
        let (s, n) = replace_words(&src, a, c);
        src = s;
        rewrites.push(json!({"file": path, "from": a, "to": c, "count": n}));
      }
      for (f, k, t) in &b.eager {
        match eager(&src, f, *k, t) {
          Some(s) => {
            src = s;
            rewrites.push(json!({"file": path, "fn": f, "map written out as a loop": k}));
          }
          None => all_lost.push(format!("{path}: fn {f}: map {k}")),
        }
      }
      if b.macros {
        let (s, ns) = expand_items(&src);
        src = s;
        for n in ns {
          rewrites.push(json!({"file": path, "macro written out": n}));
        }
      }
      if b.quote {
        let (s, ns) = expand_quote(&src);
        src = s;
        for n in ns {
          rewrites.push(json!({"file": path, "quote macro written out": n}));
        }
      }
      if b.fmt {
        let (s, ns) = expand_fmt(&src);
        src = s;
        for n in ns {
          rewrites.push(json!({"file": path, "format macro written out": n}));
        }
      }
      for (a, never, may) in PANICS {
        let c = if b.panics_may { may } else { never };
        let (s, n) = replace_code(&src, a, c);
        src = s;
        if n > 0 {
          rewrites.push(json!({"file": path, "from": a, "to": c, "count": n}));
        }
      }
      let file = match syn::parse_file(&src) {
        Ok(f) => f,
        Err(e) => {
          all_lost.push(format!("{path}: parse error {e} at line {}: {}", e.span().start().line, src.lines().nth(e.span().start().line.saturating_sub(1)).unwrap_or_default()));
          continue;
        }
      };
      let mut cx = Cx {
        src: src.clone(),
        b: &mut b,
        edits: Vec::new(),
        facts: Vec::new(),
        lost: Vec::new(),
        dropped: Vec::new(),
        rewrites: Vec::new(),
        lifts: Vec::new(),
        canary,
        canaries: &mut canaries,
        external: &external,
        seen: BTreeMap::new(),
        inject_used: BTreeSet::new(),
        attr_used: BTreeSet::new(),
        drop_used: BTreeSet::new(),
        only_used: BTreeSet::new(),
        newtypes: file
          .items
          .iter()
          .filter_map(|i| match i {
            syn::Item::Struct(s) if s.generics.params.is_empty() => match &s.fields {
              syn::Fields::Unnamed(f) if f.unnamed.len() == 1 => Some((s.ident.to_string(), src[br(&f.unnamed[0].ty)].to_owned())),
              _ => None,
            },
            _ => None,
          })
          .collect(),
      };
      for a in &file.attrs {
        cx.del(br(a));
      }
      for it in &file.items {
        cx.item(it);
      }
      let mut edits = std::mem::take(&mut cx.edits);
      let mut lost = std::mem::take(&mut cx.lost);
      let (iu, au, ou) = (cx.inject_used.clone(), cx.attr_used.clone(), cx.only_used.clone());
      all_facts.append(&mut cx.facts);
      rewrites.append(&mut cx.rewrites);
      let lifts = std::mem::take(&mut cx.lifts);
      all_dropped.extend(cx.dropped.drain(..).map(|d| format!("{path}: {d}")));
      drop(cx);
      for (k, (s, _)) in b.inject.iter().enumerate() {
        if !iu.contains(&k) {
          lost.push(format!("{path}: inject {s}"));
        }
      }
      for (k, (s, _)) in b.attr.iter().enumerate() {
        if !au.contains(&k) {
          lost.push(format!("{path}: attr {s}"));
        }
      }
      for (k, s) in b.only.iter().enumerate() {
        if !ou.contains(&k) {
          lost.push(format!("{path}: {s}"));
        }
      }
      for (s, f) in &b.fns {
        if !f.used {
          lost.push(format!("{path}: fn {s} (overlay line {})", f.line));
        }
      }
      all_lost.append(&mut lost);
      // drop edits inside deleted or replaced ranges
      let dels: Vec<Range<usize>> =
        edits.iter().filter(|e| !e.range.is_empty()).map(|e| e.range.clone()).collect();
      edits.retain(|e| {
        !dels.iter().any(|d| {
          *d != e.range
            && d.start <= e.range.start
            && e.range.end <= d.end
            && !(e.range.is_empty() && (e.range.start == d.start || e.range.start == d.end))
        })
      });
      edits.sort_by(|a, b| {
        (a.range.start, !a.range.is_empty(), a.prio).cmp(&(b.range.start, !b.range.is_empty(), b.prio))
      });
      let mut pos = 0;
      let mut text = String::new();
      for e in &edits {
        if e.range.start < pos {
          continue;
        }
        text.push_str(&src[pos..e.range.start]);
        text.push_str(&e.text);
        pos = e.range.end;
      }
      text.push_str(&src[pos..]);
      for (id, (expr, head)) in lifts.iter().enumerate() {
        let (Some(a), Some(m), Some(z)) = (
          text.find(&format!("/*@L<{id}*/")),
          text.find(&format!("/*@LB{id}*/")),
          text.find(&format!("/*@L>{id}*/")),
        ) else {
          die("lift markers");
        };
        let body = text[m..z].to_owned();
        text.replace_range(a..z, expr);
        let from = a;
        let Some(e) = text[from..].find("/*@endfn*/") else { die("lift: no end of function") };
        text.insert_str(from + e + "/*@endfn*/".len(), &format!("{head}{body}/*@endfn*/"));
      }
      res.push_str(&format!("// ---- extracted from {path}\n{text}\n// ---- end of {path}\n"));
      continue;
    }
    if let Some(d) = l.strip_prefix("//@spec-copy ") {
      let (t, name, lits) = spec_copy(repo, d, &mut all_lost, &mut rewrites);
      res.push_str(&t);
      res.push('\n');
      all_lits.push((name, lits));
      i += 1;
      continue;
    }
    if l.trim() == "//@canary" {
      res.push_str("pub uninterp spec fn vcanary(i: int) -> bool;\n");
    } else {
      res.push_str(l);
      res.push('\n');
    }
    i += 1;
  }
  for (name, lits) in &all_lits {
    let t: String = lits.iter().map(|l| format!("reveal_strlit({l:?}); ")).collect();
    res = res.replace(&format!("@LITS({name})@"), &t);
  }
  std::fs::write(out, res).unwrap_or_else(|e| die(&e.to_string()));
  let j = json!({"fns": all_facts, "lost": all_lost, "dropped": all_dropped, "rewrites": rewrites,
    "canaries": canaries});
  std::fs::write(facts, serde_json::to_string_pretty(&j).unwrap()).unwrap_or_else(|e| die(&e.to_string()));
}
