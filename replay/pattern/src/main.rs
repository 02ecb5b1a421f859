//! Oracles for the pattern-match crate: every value of the type is tried.

use pattern_match::{check, Check, CheckError, ConPat, Lang, Pat, RawPat, Result};
use replay_common::{main as run_main, Rng, Run};
use std::collections::BTreeSet;

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
enum Ty {
  Unit,
  Bool,
  Void,
  /// numbers up to `MAX`, by ranges
  Range,
  /// numbers by literals, more than can be listed
  Int,
  Enum,
  Pair,
  Half,
  Rec,
  Deep,
  /// many constructors
  Many,
  /// many arguments
  Wide,
  /// nested up to so deep
  Nest(u8),
}
const TYS: &[Ty] =
  &[Ty::Unit, Ty::Bool, Ty::Void, Ty::Range, Ty::Int, Ty::Enum, Ty::Pair, Ty::Half, Ty::Rec, Ty::Deep, Ty::Many, Ty::Wide, Ty::Nest(0)];
const MAX: u8 = 5;

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
enum Con {
  Any,
  /// the `n`th constructor of the type
  K(u8),
  R(u8, u8),
}

impl Ty {
  /// the constructors of values
  fn cons(self) -> Vec<Con> {
    let n = match self {
      Ty::Unit | Ty::Pair | Ty::Rec | Ty::Wide => 1,
      Ty::Many => 40,
      Ty::Bool | Ty::Half | Ty::Deep | Ty::Nest(_) => 2,
      Ty::Void => 0,
      Ty::Range => return (0..=MAX).map(|x| Con::R(x, x)).collect(),
      Ty::Int => 6,
      Ty::Enum => 3,
    };
    (0..n).map(Con::K).collect()
  }
  fn args(self, c: Con) -> Vec<Ty> {
    match (self, c) {
      (Ty::Enum, Con::K(1)) => vec![Ty::Bool],
      (Ty::Enum, Con::K(2)) => vec![Ty::Bool, Ty::Range],
      (Ty::Pair, Con::K(0)) => vec![Ty::Enum, Ty::Bool],
      (Ty::Half, Con::K(0)) => vec![Ty::Bool, Ty::Void],
      (Ty::Half, Con::K(1)) => vec![Ty::Bool],
      (Ty::Rec, Con::K(0)) => vec![Ty::Bool, Ty::Int, Ty::Bool],
      (Ty::Deep, Con::K(0)) => vec![Ty::Half, Ty::Bool],
      (Ty::Deep, Con::K(1)) => vec![Ty::Enum],
      (Ty::Many, Con::K(n)) if n % 8 == 7 => vec![Ty::Bool],
      (Ty::Wide, Con::K(0)) => vec![Ty::Bool; 6],
      (Ty::Nest(n), Con::K(1)) if n > 0 => vec![Ty::Nest(n - 1)],
      _ => vec![],
    }
  }
  fn lived_in(self) -> bool {
    matches!(self, Ty::Nest(_)) || self.cons().iter().any(|&c| self.args(c).iter().all(|t| t.lived_in()))
  }
  fn values(self) -> Vec<Val> {
    let mut ret = vec![];
    for con in self.cons() {
      let mut rows: Vec<Vec<Val>> = vec![vec![]];
      for t in self.args(con) {
        let vs = t.values();
        rows = rows.iter().flat_map(|r| vs.iter().map(move |v| { let mut r = r.clone(); r.push(v.clone()); r })).collect();
      }
      ret.extend(rows.into_iter().map(|args| Val { con, args }));
    }
    ret
  }
}
#[derive(Debug, Clone, PartialEq, Eq)]
struct Val {
  con: Con,
  args: Vec<Val>,
}

fn has(c: Con, vc: Con) -> bool {
  match (c, vc) {
    (Con::Any, _) => true,
    (Con::R(a, b), Con::R(x, _)) => a <= x && x <= b,
    _ => c == vc,
  }
}

#[derive(Debug, Clone, Copy)]
struct Cx {
  /// stand for what is not mentioned by the any-constructor, from this depth on
  lazy: Option<usize>,
  /// have an error for a constructor that is not of the type
  strict: bool,
  /// have an error after so many calls
  fail_in: Option<usize>,
  failed: bool,
}
impl Cx {
  fn called(&mut self) -> Result<()> {
    match &mut self.fail_in {
      Some(0) => {
        self.failed = true;
        return Err(CheckError(PLANNED));
      }
      Some(n) => *n -= 1,
      None => {}
    }
    Ok(())
  }
}
const FOREIGN: &str = "not of the type";
const PLANNED: &str = "planned: {}";
#[derive(Debug)]
struct L;
impl Lang for L {
  type Cx = Cx;
  type PatIdx = u32;
  type Con = Con;
  type Ty = Ty;
  fn any() -> Con {
    Con::Any
  }
  fn split<'a, I>(cx: &mut Cx, ty: &Ty, con: &Con, cons: I, depth: usize) -> Result<Vec<Con>>
  where
    I: Iterator<Item = &'a Con>,
  {
    cx.called()?;
    if cx.strict && !belongs(*con, *ty) {
      return Err(CheckError(FOREIGN));
    }
    let cons: Vec<Con> = cons.copied().filter(|&c| c != Con::Any).collect();
    let lazy = cx.lazy.is_some_and(|d| d <= depth);
    if *ty == Ty::Range {
      let (lo, hi) = match *con {
        Con::Any => (0, MAX),
        Con::R(a, b) => (a, b),
        Con::K(_) => return Err(CheckError("no number")),
      };
      let mut starts: BTreeSet<u8> = [lo].into();
      for c in &cons {
        let &Con::R(a, b) = c else { return Err(CheckError("no number")) };
        starts.extend([a, b + 1].iter().filter(|&&x| lo < x && x <= hi));
      }
      let starts: Vec<u8> = starts.into_iter().collect();
      let mut parts: Vec<Con> = (0..starts.len()).map(|i| Con::R(starts[i], starts.get(i + 1).map_or(hi, |x| x - 1))).collect();
      if lazy && *con == Con::Any {
        let n = parts.len();
        parts.retain(|&p| { let Con::R(a, _) = p else { unreachable!() }; cons.iter().any(|&c| has(c, Con::R(a, a))) });
        if parts.len() < n {
          parts.push(Con::Any);
        }
      }
      return Ok(parts);
    }
    if *con != Con::Any {
      return Ok(vec![*con]);
    }
    let all = ty.cons();
    let (seen, rest): (Vec<Con>, Vec<Con>) = all.iter().partition(|c| cons.contains(c));
    if (lazy || *ty == Ty::Int) && rest.iter().any(|&c| ty.args(c).iter().all(|t| t.lived_in())) {
      let mut ret = seen;
      ret.push(Con::Any);
      return Ok(ret);
    }
    Ok(all)
  }
  fn get_arg_tys(cx: &mut Cx, ty: &Ty, con: &Con) -> Result<Vec<Ty>> {
    cx.called()?;
    Ok(ty.args(*con))
  }
  fn covers(lhs: &Con, rhs: &Con) -> bool {
    match (lhs, rhs) {
      (Con::R(a, b), Con::R(c, d)) => a <= c && d <= b,
      _ => lhs == rhs,
    }
  }
}

fn hit(p: &Pat<L>, v: &Val) -> bool {
  match &p.raw {
    RawPat::Or(ps) => ps.iter().any(|p| hit(p, v)),
    RawPat::Con(c) => c.con == Con::Any || has(c.con, v.con) && c.args.iter().zip(&v.args).all(|(p, v)| hit(p, v)),
  }
}
/// the indices of the parts through which it matches the value, which it does
fn through(p: &Pat<L>, v: &Val, ac: &mut BTreeSet<u32>) {
  ac.extend(p.idx);
  match &p.raw {
    RawPat::Or(ps) => through(ps.iter().find(|p| hit(p, v)).unwrap(), v, ac),
    RawPat::Con(c) => c.args.iter().zip(&v.args).for_each(|(p, v)| through(p, v, ac)),
  }
}
fn indices(p: &Pat<L>, ac: &mut BTreeSet<u32>) {
  ac.extend(p.idx);
  let (RawPat::Or(ps) | RawPat::Con(ConPat { args: ps, .. })) = &p.raw;
  for p in ps {
    indices(p, ac);
  }
}
fn typed(p: &Pat<L>, ty: Ty) -> bool {
  match &p.raw {
    RawPat::Or(_) => false,
    RawPat::Con(c) if c.con == Con::Any => c.args.is_empty(),
    RawPat::Con(c) => {
      let ok = match c.con { Con::R(a, b) => ty == Ty::Range && a <= b && b <= MAX, c => ty.cons().contains(&c) };
      let ts = ty.args(c.con);
      ok && c.args.len() <= ts.len() && c.args.iter().zip(ts).all(|(p, t)| typed(p, t))
    }
  }
}

fn belongs(c: Con, ty: Ty) -> bool {
  match c {
    Con::Any => true,
    Con::R(a, b) => ty == Ty::Range && a <= b && b <= MAX,
    c => ty.cons().contains(&c),
  }
}
/// whether the pattern makes sense
fn sense(p: &Pat<L>, ty: Ty) -> bool {
  match &p.raw {
    RawPat::Or(ps) => ps.iter().all(|p| sense(p, ty)),
    RawPat::Con(c) if c.con == Con::Any => c.args.is_empty(),
    RawPat::Con(c) => {
      let ts = ty.args(c.con);
      belongs(c.con, ty) && c.args.len() <= ts.len() && c.args.iter().zip(ts).all(|(p, t)| sense(p, t))
    }
  }
}
fn solid(p: &Pat<L>) -> bool {
  match &p.raw {
    RawPat::Or(ps) => !ps.is_empty() && ps.iter().all(solid),
    RawPat::Con(c) => c.args.iter().all(solid),
  }
}
fn size(p: &Pat<L>) -> usize {
  let (RawPat::Or(ps) | RawPat::Con(ConPat { args: ps, .. })) = &p.raw;
  1 + ps.iter().map(size).sum::<usize>()
}
/// changes the `n`th part
fn spoil(p: &mut Pat<L>, n: &mut usize, rng: &mut Rng) {
  if *n == 0 {
    match &mut p.raw {
      RawPat::Con(c) => match rng.below(4) {
        0 => {
          for _ in 0..=rng.below(3) {
            let mut p = Pat::zero(if rng.chance(1, 2) { Con::Any } else { Con::K(0) }, 1000);
            if rng.chance(1, 2) {
              p.idx = None;
            }
            c.args.push(p);
          }
        }
        1 => c.con = Con::Any,
        2 => c.con = Con::K(rng.below(5) as u8),
        _ => c.con = Con::R(rng.below(7) as u8, rng.below(7) as u8),
      },
      RawPat::Or(_) => p.raw = RawPat::Con(ConPat { con: Con::Any, args: vec![Pat::zero(Con::Any, 1000)] }),
    }
  }
  *n = n.wrapping_sub(1);
  let (RawPat::Or(ps) | RawPat::Con(ConPat { args: ps, .. })) = &mut p.raw;
  for p in ps {
    spoil(p, n, rng);
  }
}

struct Gen<'a> {
  rng: &'a mut Rng,
  next: u32,
  share: bool,
}
impl Gen<'_> {
  fn id(&mut self) -> u32 {
    if self.share && self.rng.chance(1, 4) {
      return self.rng.below(self.next as usize + 1) as u32;
    }
    self.next += 1;
    self.next
  }
  fn pat(&mut self, ty: Ty, depth: usize) -> Pat<L> {
    let mut p = self.pat_idx(ty, depth);
    if self.rng.chance(1, 12) {
      p.idx = None;
    }
    p
  }
  fn pat_idx(&mut self, ty: Ty, depth: usize) -> Pat<L> {
    let idx = self.id();
    if depth < 4 && self.rng.chance(1, 5) {
      let n = if depth < 2 && self.rng.chance(1, 40) { self.rng.below(24) } else { self.rng.below(4) };
      let ps = (0..n).map(|_| self.pat(ty, depth + 1)).collect();
      return Pat::or(ps, idx);
    }
    let cons = ty.cons();
    if cons.is_empty() || self.rng.chance(1, 4) {
      return Pat::zero(Con::Any, idx);
    }
    let con = match *self.rng.pick(&cons) {
      // more literals than this there are
      Con::K(x) if ty == Ty::Int => Con::K(x.min(4)),
      Con::R(x, _) => Con::R(x, (x + self.rng.below(3) as u8).min(MAX)),
      c => c,
    };
    let mut ts = ty.args(con);
    if self.rng.chance(1, 5) {
      let n = self.rng.below(ts.len() + 1);
      ts.truncate(n);
    }
    let args = ts.into_iter().map(|t| self.pat(t, depth + 1)).collect();
    Pat::con(con, args, idx)
  }
}

struct Case {
  cx: Cx,
  ty: Ty,
  pats: Vec<Pat<L>>,
}
fn show(p: &Pat<L>) -> String {
  let args = |ps: &[Pat<L>], sep: &str| ps.iter().map(show).collect::<Vec<_>>().join(sep);
  let id = p.idx.map_or(String::new(), |x| format!("#{x}"));
  match &p.raw {
    RawPat::Or(ps) => format!("[{}]{id}", args(ps, " | ")),
    RawPat::Con(c) => format!("{:?}({}){id}", c.con, args(&c.args, ", ")),
  }
}
fn gen(rng: &mut Rng) -> Case {
  let mut ty = *rng.pick(TYS);
  if ty == Ty::Nest(0) {
    ty = Ty::Nest(rng.size(3).min(80) as u8);
  }
  let cx = Cx { lazy: if rng.chance(1, 2) { None } else { Some(rng.below(3)) }, strict: false, fail_in: None, failed: false };
  let n = match rng.below(100) {
    0 => rng.below(60),
    1..=8 => rng.below(16),
    _ => rng.below(7),
  };
  let share = rng.chance(1, 5);
  let mut g = Gen { rng, next: 0, share };
  let mut pats: Vec<Pat<L>> = (0..n).map(|_| g.pat(ty, 0)).collect();
  if let Ty::Nest(n) = ty {
    if g.rng.chance(1, 2) {
      // one pattern for each depth, or nearly
      pats.clear();
      for i in 0..=usize::from(n) + 1 {
        if g.rng.chance(1, usize::from(n) + 2) {
          continue;
        }
        let mut p = if i > usize::from(n) { Pat::zero(Con::K(1), { g.next += 1; g.next }) } else { Pat::zero(Con::K(0), { g.next += 1; g.next }) };
        for _ in 0..i.min(usize::from(n)) {
          g.next += 1;
          p = Pat::con(Con::K(1), vec![p], g.next);
        }
        pats.push(p);
      }
      g.rng.shuffle(&mut pats);
    }
  }
  // close to exhaustive
  if g.rng.chance(1, 3) {
    let mut cons = ty.cons();
    g.rng.shuffle(&mut cons);
    for con in cons {
      if g.rng.chance(5, 6) {
        let args = ty.args(con).into_iter().map(|t| if g.rng.chance(1, 2) { Pat::zero(Con::Any, { g.next += 1; g.next }) } else { g.pat(t, 1) }).collect();
        g.next += 1;
        pats.push(Pat::con(con, args, g.next));
      }
    }
  }
  Case { cx, ty, pats }
}

fn each(run: &mut Run, f: fn(&Case, &[Val], Check<L>) -> std::result::Result<(), String>) {
  while run.more() {
    let c = gen(&mut run.rng);
    let desc = format!("type {:?}, rest from depth {:?}: {}", c.ty, c.cx.lazy, c.pats.iter().map(show).collect::<Vec<_>>().join("; "));
    run.case(desc, c.pats.len() > 1, || {
      let vs = c.ty.values();
      let mut cx = c.cx;
      let ck = check::<L>(&mut cx, c.pats.clone(), c.ty).map_err(|e| format!("error for patterns that make sense: {e}"))?;
      f(&c, &vs, ck)
    });
  }
}
fn m01(run: &mut Run) {
  each(run, |c, vs, ck| {
    let left = vs.iter().find(|v| !c.pats.iter().any(|p| hit(p, v)));
    match (left, ck.missing.is_empty()) {
      (Some(v), true) => Err(format!("said to be exhaustive but {v:?} is not matched")),
      (None, false) => Err(format!("said not to be exhaustive, missing {}", show(&ck.missing[0]))),
      _ => Ok(()),
    }
  });
}
fn m02(run: &mut Run) {
  each(run, |c, vs, ck| {
    let mut ids = BTreeSet::new();
    for p in &c.pats {
      indices(p, &mut ids);
    }
    if let Some(x) = ck.unreachable.iter().find(|x| !ids.contains(x)) {
      return Err(format!("unreachable index {x} which is none"));
    }
    let mut used = BTreeSet::new();
    for v in vs {
      if let Some(p) = c.pats.iter().find(|p| hit(p, v)) {
        through(p, v, &mut used);
      }
    }
    for &x in &ids {
      if used.contains(&x) == ck.unreachable.contains(&x) {
        return Err(format!("index {x} said to be {}reachable", if used.contains(&x) { "un" } else { "" }));
      }
    }
    Ok(())
  });
}
fn m03(run: &mut Run) {
  each(run, |c, vs, ck| {
    let real = c.cx.lazy.is_none() && c.ty != Ty::Int && c.ty != Ty::Rec;
    for w in &ck.missing {
      if !typed(w, c.ty) {
        return Err(format!("missing {} which is no pattern of the type, or has alternatives", show(w)));
      }
      let mine: Vec<&Val> = vs.iter().filter(|v| hit(w, v)).collect();
      let left = mine.iter().filter(|v| !c.pats.iter().any(|p| hit(p, v))).count();
      if left == 0 || real && left < mine.len() {
        return Err(format!("missing {} matches {} values of which {left} are not matched by a given pattern", show(w), mine.len()));
      }
    }
    Ok(())
  });
}

// ---------------------------------------------------------------- M04

/// a constructor that only has a text; `fails`: it reports an error once that is written
#[derive(Debug, Clone)]
struct Named {
  text: String,
  fails: bool,
}
impl std::fmt::Display for Named {
  fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
    f.write_str(&self.text)?;
    if self.fails { Err(std::fmt::Error) } else { Ok(()) }
  }
}
struct N;
impl Lang for N {
  type Cx = ();
  type PatIdx = u32;
  type Con = Named;
  type Ty = ();
  fn any() -> Named {
    Named { text: "_".to_owned(), fails: false }
  }
  fn split<'a, I: Iterator<Item = &'a Named>>(_: &mut (), _: &(), _: &Named, _: I, _: usize) -> Result<Vec<Named>> {
    Err(CheckError("no types"))
  }
  fn get_arg_tys(_: &mut (), _: &(), _: &Named) -> Result<Vec<()>> {
    Err(CheckError("no types"))
  }
  fn covers(_: &Named, _: &Named) -> bool {
    true
  }
}
/// Takes `room` more characters, then fails; once it has failed it must not be written to.
struct W {
  out: String,
  room: usize,
  failed: bool,
  after: bool,
}
impl std::fmt::Write for W {
  fn write_str(&mut self, s: &str) -> std::fmt::Result {
    if self.failed {
      self.after = true;
      return Err(std::fmt::Error);
    }
    for c in s.chars() {
      if self.room == 0 {
        self.failed = true;
        return Err(std::fmt::Error);
      }
      self.room -= 1;
      self.out.push(c);
    }
    Ok(())
  }
}
fn named(rng: &mut Rng, depth: usize, fail: usize) -> Pat<N> {
  let n = if depth == 0 { 0 } else { rng.size(3) };
  let idx = if rng.chance(1, 3) { None } else { Some(rng.below(9) as u32) };
  let subs: Vec<Pat<N>> = (0..n).map(|_| named(rng, depth - 1, fail)).collect();
  let raw = if rng.chance(1, 3) {
    RawPat::Or(subs)
  } else {
    let text = if rng.chance(1, 4) { rng.pick(&["<NEVER>", "", "_", " | ", "(", "()", "(a, b)", ", "]).to_string() } else { rng.text(&['a', 'B', '_', '|', ',', ' ', '(', ')', 'é', '😀'], 4) };
    RawPat::Con(ConPat { con: Named { text, fails: fail > 0 && rng.below(fail) == 0 }, args: subs })
  };
  Pat { raw, idx }
}
/// what is written, and whether it ends in an error
fn written(p: &RawPat<N>, out: &mut String) -> bool {
  let all = |ps: &[Pat<N>], sep: &str, out: &mut String| {
    for (i, p) in ps.iter().enumerate() {
      if i > 0 {
        out.push_str(sep);
      }
      if !written(&p.raw, out) {
        return false;
      }
    }
    true
  };
  match p {
    RawPat::Or(ps) if ps.is_empty() => {
      out.push_str("<NEVER>");
      true
    }
    RawPat::Or(ps) => all(ps, " | ", out),
    RawPat::Con(c) => {
      out.push_str(&c.con.text);
      if c.con.fails {
        return false;
      }
      if c.args.is_empty() {
        return true;
      }
      out.push('(');
      if !all(&c.args, ", ", out) {
        return false;
      }
      out.push(')');
      true
    }
  }
}
fn m04(run: &mut Run) {
  use std::fmt::Write as _;
  static MSGS: &[&str] = &["", "x", "too few", "é: {} %s"];
  while run.more() {
    let depth = run.rng.below(6);
    let fail = if run.rng.chance(1, 2) { 0 } else { 1 + run.rng.below(30) };
    let p = named(&mut run.rng, depth, fail);
    let (mut text, ok) = (String::new(), true);
    let ok = written(&p.raw, &mut text) && ok;
    let room = if run.rng.chance(1, 2) { usize::MAX } else { run.rng.below(text.chars().count() + 2) };
    let style = run.rng.below(6);
    let part = run.rng.below(3);
    let msg = *run.rng.pick(MSGS);
    run.case(format!("{:?} room {room} style {style} part {part} message {msg:?}", p), depth > 1, || {
      let fits = text.chars().count() <= room;
      let want: String = text.chars().take(room).collect();
      let mut w = W { out: String::new(), room, failed: false, after: false };
      let shown: &dyn std::fmt::Display = match (part, &p.raw) {
        (0, r) => r,
        (1, RawPat::Con(c)) => c,
        _ => &p,
      };
      let r = match style {
        0 => write!(w, "{shown:#}"),
        1 => write!(w, "{shown:+}"),
        _ => write!(w, "{shown}"),
      };
      if r.is_ok() != (ok && fits) || w.out != want || w.after {
        return Err(format!("wrote {:?} ({r:?}, wrote on after an error: {}), not {want:?} (without error: {})", w.out, w.after, ok && fits));
      }
      let e = CheckError(msg).to_string();
      if e != format!("could not check pattern match: {msg}") {
        return Err(format!("CheckError displays as {e:?}"));
      }
      Ok(())
    });
  }
}

fn m05(run: &mut Run) {
  while run.more() {
    let mut c = gen(&mut run.rng);
    c.cx.strict = true;
    let rng = &mut run.rng;
    if rng.chance(1, 6) {
      c.cx.fail_in = Some(if rng.chance(1, 4) { rng.below(200) } else { rng.below(12) });
    }
    for _ in 0..[0, 1, 1, 1, 2][rng.below(5)] {
      if !c.pats.is_empty() {
        let i = rng.below(c.pats.len());
        let mut n = rng.below(size(&c.pats[i]));
        spoil(&mut c.pats[i], &mut n, rng);
      }
    }
    // an empty type hides what stands beside it, and so does an or-pattern of none
    let plain = !matches!(c.ty, Ty::Void | Ty::Half | Ty::Deep) && c.pats.iter().all(solid);
    let sense = c.pats.iter().all(|p| sense(p, c.ty));
    let desc = format!("type {:?}, {:?}: {}", c.ty, c.cx, c.pats.iter().map(show).collect::<Vec<_>>().join("; "));
    run.case(desc, !sense, || {
      let mut cx = c.cx;
      let ck = check::<L>(&mut cx, c.pats.clone(), c.ty);
      match ck {
        Ok(_) if cx.failed => Err("the language's error is lost".to_owned()),
        Err(e) if cx.failed && e.0 != PLANNED => Err(format!("the language's error became {e}")),
        Err(_) if cx.failed => Ok(()),
        Ok(_) if plain && !sense => Err("a result for patterns that make no sense".to_owned()),
        Err(e) if sense => Err(format!("error for patterns that make sense: {e}")),
        _ => Ok(()),
      }
    });
  }
}

fn main() {
  run_main(&[
    ("M01", "random patterns over thirteen types (ranges, literals, records with fewer arguments, empty types, rests); missing is empty exactly if each of all values is matched", m01),
    ("M02", "random patterns; each index against all values, by the pattern and the alternatives before it", m02),
    ("M03", "random patterns; each missing pattern against all values", m03),
    ("M04", "random patterns up to five levels deep, texts that look like syntax, writers that fill up, constructors that fail; nontrivial: two levels or more", m04),
    ("M05", "random patterns with up to two parts spoiled (arguments too many, other constructors), a language that checks, or fails after some calls; nontrivial: one that makes no sense", m05),
  ]);
}
