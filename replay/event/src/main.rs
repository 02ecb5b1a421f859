//! Oracles for the event-parse crate.

use event_parse::{rowan_sink::RowanSink, Entered, Exited, Expected, Parser, Save, Sink};
use replay_common::{main as run_main, Rng, Run};
use token::{Token, Triviable};

#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]
struct K(u16);
impl Triviable for K {
  fn is_trivia(&self) -> bool {
    self.0 < 2
  }
}
impl From<K> for rowan::SyntaxKind {
  fn from(k: K) -> Self {
    rowan::SyntaxKind(k.0)
  }
}
#[derive(Debug, Clone, PartialEq, Eq)]
enum E {
  Exp(K),
  Own(u32),
}
impl Expected<K> for E {
  fn expected(kind: K) -> Self {
    E::Exp(kind)
  }
}

#[derive(Debug, Clone, PartialEq)]
enum Out {
  Enter(K),
  Tok(K, String),
  Exit,
  Err(E),
}
#[derive(Default)]
struct Log(Vec<Out>);
impl Sink<K, E> for Log {
  fn enter(&mut self, kind: K) {
    self.0.push(Out::Enter(kind));
  }
  fn token(&mut self, token: Token<'_, K>) {
    self.0.push(Out::Tok(token.kind, token.text.to_owned()));
  }
  fn exit(&mut self) {
    self.0.push(Out::Exit);
  }
  fn error(&mut self, error: E) {
    self.0.push(Out::Err(error));
  }
}

#[derive(Debug, Clone, Copy, PartialEq)]
enum Op {
  Enter,
  Exit(K),
  Abandon,
  /// of the candidate
  Precede(usize),
  Bump,
  Err(u32),
  Eat(K),
  Peek,
  PeekN(usize),
  At(K),
  AtN(usize, K),
  Save,
  OkSince,
}

// ---- the reference: the tree as it is recorded

#[derive(Debug, Clone, PartialEq)]
enum It {
  Open(usize),
  Close,
  Tok(usize),
  Err(E),
}
#[derive(Debug, Clone)]
enum Scope {
  Node(usize, Vec<usize>),
  Save(Vec<It>, usize, usize, Vec<usize>),
}
#[derive(Debug, Clone, PartialEq)]
enum Res {
  None,
  Tok(Option<usize>),
  Bool(bool),
}
struct Model {
  toks: Vec<K>,
  /// indices of the tokens that are not trivia
  solid: Vec<usize>,
  next: usize,
  items: Vec<It>,
  kinds: Vec<Option<K>>,
  scopes: Vec<Scope>,
  root: Vec<usize>,
}
impl Model {
  fn new(toks: &[K]) -> Self {
    let solid = (0..toks.len()).filter(|&i| !toks[i].is_trivia()).collect();
    Model { toks: toks.to_vec(), solid, next: 0, items: vec![], kinds: vec![], scopes: vec![], root: vec![] }
  }
  fn cands(&mut self) -> &mut Vec<usize> {
    match self.scopes.last_mut() {
      None => &mut self.root,
      Some(Scope::Node(_, c) | Scope::Save(_, _, _, c)) => c,
    }
  }
  fn nth(&self, n: usize) -> Option<usize> {
    self.solid.get(self.next + n).copied()
  }
  fn at(&self, n: usize, k: K) -> bool {
    self.nth(n).is_some_and(|i| self.toks[i] == k)
  }
  /// what the call returns; for `Exit` whether the node is empty
  fn step(&mut self, op: Op) -> Res {
    match op {
      Op::Enter => {
        let id = self.kinds.len();
        self.kinds.push(None);
        self.items.push(It::Open(id));
        self.scopes.push(Scope::Node(id, vec![]));
        Res::None
      }
      Op::Exit(k) => {
        let Some(Scope::Node(id, _)) = self.scopes.pop() else { panic!("bad program") };
        self.kinds[id] = Some(k);
        let at = self.items.iter().position(|i| *i == It::Open(id)).unwrap();
        let empty = !self.items[at..].iter().any(|i| matches!(i, It::Tok(_)));
        self.items.push(It::Close);
        self.cands().push(id);
        Res::Bool(empty)
      }
      Op::Abandon => {
        let Some(Scope::Node(id, c)) = self.scopes.pop() else { panic!("bad program") };
        self.items.retain(|i| *i != It::Open(id));
        self.cands().extend(c);
        Res::None
      }
      Op::Precede(n) => {
        let rest = self.cands().split_off(n + 1);
        let ex = self.cands().pop().unwrap();
        let id = self.kinds.len();
        self.kinds.push(None);
        let at = self.items.iter().position(|i| *i == It::Open(ex)).unwrap();
        self.items.insert(at, It::Open(id));
        self.scopes.push(Scope::Node(id, rest));
        Res::None
      }
      Op::Bump => {
        let t = self.nth(0);
        self.items.push(It::Tok(t.unwrap()));
        self.next += 1;
        Res::Tok(t)
      }
      Op::Err(n) => {
        self.items.push(It::Err(E::Own(n)));
        Res::None
      }
      Op::Eat(k) => {
        if self.at(0, k) {
          self.step(Op::Bump)
        } else {
          self.items.push(It::Err(E::Exp(k)));
          Res::Tok(None)
        }
      }
      Op::Peek => Res::Tok(self.nth(0)),
      Op::PeekN(n) => Res::Tok(self.nth(n)),
      Op::At(k) => Res::Bool(self.at(0, k)),
      Op::AtN(n, k) => Res::Bool(self.at(n, k)),
      Op::Save => {
        self.scopes.push(Scope::Save(self.items.clone(), self.next, self.kinds.len(), vec![]));
        Res::None
      }
      Op::OkSince => {
        let Some(Scope::Save(items, next, kinds, c)) = self.scopes.pop() else { panic!("bad program") };
        let bad = self.items[items.len()..].iter().any(|i| matches!(i, It::Err(_)));
        if bad {
          self.items = items;
          self.next = next;
          self.kinds.truncate(kinds);
        } else {
          self.cands().extend(c);
        }
        Res::Bool(!bad)
      }
    }
  }
}

struct Program {
  toks: Vec<K>,
  ops: Vec<Op>,
}

/// a sequence of calls that follows the protocol
fn program(rng: &mut Rng, one_root: bool) -> Program {
  // mostly small, now and then long and deep
  let big = match rng.below(600) {
    0 => 40,
    1..=15 => 8,
    _ => 1,
  };
  let nt = rng.below(8 * big + 1);
  let deep = 6 * big;
  let trivia = 1 + rng.below(3);
  let toks: Vec<K> = (0..nt).map(|_| if rng.chance(trivia, 4) { K(rng.below(2) as u16) } else { K(2 + rng.below(3) as u16) }).collect();
  let mut m = Model::new(&toks);
  let mut ops = Vec::new();
  let mut depth = 0usize;
  let steps = rng.below(28 * big);
  // mostly nodes that precede others, or nodes in nodes
  let bias = rng.below(8);
  let put = |m: &mut Model, ops: &mut Vec<Op>, op: Op| {
    m.step(op);
    ops.push(op);
  };
  if one_root {
    put(&mut m, &mut ops, Op::Enter);
    depth = 1;
  }
  let errs = rng.below(3);
  for _ in 0..steps {
    let k = K(2 + rng.below(4) as u16);
    let c = match bias {
      0 if rng.chance(2, 3) => rng.below(9),
      1 if rng.chance(1, 2) => rng.below(4),
      2 if rng.chance(1, 2) => 9,
      3 if rng.chance(1, 2) => 17,
      _ => rng.below(20),
    };
    let nc = m.cands().len();
    let top_node = matches!(m.scopes.last(), Some(Scope::Node(..))) && !(one_root && m.scopes.len() == 1);
    let top_save = matches!(m.scopes.last(), Some(Scope::Save(..)));
    let op = match c {
      0..=3 if depth < deep => Op::Enter,
      4..=5 if top_node => Op::Exit(K(10 + rng.below(5) as u16)),
      6 if top_node => Op::Abandon,
      7..=8 if nc > 0 && depth < deep => Op::Precede(if rng.chance(2, 3) { nc - 1 } else { rng.below(nc) }),
      9..=11 if m.nth(0).is_some() => Op::Bump,
      12 if errs > 0 => Op::Err(ops.len() as u32),
      13 => match m.nth(0) {
        Some(t) if errs == 0 || rng.chance(3, 4) => Op::Eat(toks[t]),
        _ if errs > 0 => Op::Eat(k),
        _ => Op::Peek,
      },
      14 => Op::Peek,
      15 => Op::PeekN(if rng.chance(1, 20) { rng.below(nt + 3) } else { rng.below(5) }),
      16 => if rng.chance(1, 2) { Op::At(k) } else { Op::AtN(if rng.chance(1, 20) { rng.below(nt + 3) } else { rng.below(4) }, k) },
      17 if depth < deep => Op::Save,
      18..=19 if top_save => Op::OkSince,
      _ => continue,
    };
    match op {
      Op::Enter | Op::Precede(_) | Op::Save => depth += 1,
      Op::Exit(_) | Op::Abandon | Op::OkSince => depth -= 1,
      _ => {}
    }
    put(&mut m, &mut ops, op);
  }
  while let Some(s) = m.scopes.last() {
    let op = match s {
      Scope::Node(..) if rng.chance(1, 6) && !(one_root && m.scopes.len() == 1) => Op::Abandon,
      Scope::Node(..) => Op::Exit(K(10 + rng.below(5) as u16)),
      Scope::Save(..) => Op::OkSince,
    };
    put(&mut m, &mut ops, op);
  }
  Program { toks, ops }
}

impl Program {
  fn desc(&self) -> String {
    format!("tokens (kinds 0 and 1 are trivia) {:?}; calls {:?}", self.toks.iter().map(|k| k.0).collect::<Vec<_>>(), self.ops)
  }
}

/// runs a program
struct Real<'a> {
  p: Parser<'a, K, E>,
  entered: Vec<Entered>,
  saves: Vec<Save>,
  exited: Vec<Exited>,
}
fn texts(n: usize) -> Vec<String> {
  (0..n).map(|i| format!("t{i}")).collect()
}
fn tokens<'a>(toks: &[K], texts: &'a [String]) -> Vec<Token<'a, K>> {
  toks.iter().zip(texts).map(|(&kind, text)| Token { kind, text }).collect()
}
/// the number a token's text gives
fn index(t: Option<Token<'_, K>>) -> Option<usize> {
  t.map(|t| t.text[1..].parse().unwrap())
}
impl<'a> Real<'a> {
  fn new(ts: &'a [Token<'a, K>]) -> Self {
    Real { p: Parser::new(ts), entered: vec![], saves: vec![], exited: vec![] }
  }
  /// `ex`: the node to precede
  fn step(&mut self, op: Op, ex: Option<Exited>) -> Res {
    match op {
      Op::Enter => self.entered.push(self.p.enter()),
      Op::Exit(k) => {
        let e = self.entered.pop().unwrap();
        let ex = self.p.exit(e, k);
        self.exited.push(ex);
        return Res::Bool(ex.is_empty());
      }
      Op::Abandon => {
        let e = self.entered.pop().unwrap();
        self.p.abandon(e);
      }
      Op::Precede(_) => self.entered.push(self.p.precede(ex.unwrap())),
      Op::Bump => return Res::Tok(index(Some(self.p.bump()))),
      Op::Err(n) => self.p.error(E::Own(n)),
      Op::Eat(k) => return Res::Tok(index(self.p.eat(k))),
      Op::Peek => return Res::Tok(index(self.p.peek())),
      Op::PeekN(n) => return Res::Tok(index(self.p.peek_n(n))),
      Op::At(k) => return Res::Bool(self.p.at(k)),
      Op::AtN(n, k) => return Res::Bool(self.p.at_n(n, k)),
      Op::Save => self.saves.push(self.p.save()),
      Op::OkSince => {
        let s = self.saves.pop().unwrap();
        return Res::Bool(self.p.ok_since(s));
      }
    }
    Res::None
  }
}

/// Runs the program on both; `look` sees every call and what it returned (real, reference).
/// Gives the reference's last state, what the sink was told, and the calls that were not undone.
fn run(pr: &Program, finish: bool, look: &mut dyn FnMut(usize, Op, &Res, &Res, &mut Parser<'_, K, E>, &Model) -> Result<(), String>) -> Result<(Model, Vec<Out>), String> {
  let tx = texts(pr.toks.len());
  let ts = tokens(&pr.toks, &tx);
  let mut m = Model::new(&pr.toks);
  let mut r = Real::new(&ts);
  // by node, what `exit` gave
  let mut exs: Vec<Option<Exited>> = vec![];
  let res = (|| {
    for (i, &op) in pr.ops.iter().enumerate() {
      let ex = if let Op::Precede(n) = op { exs[m.cands()[n]] } else { None };
      let id = if let (Op::Exit(_), Some(Scope::Node(id, _))) = (op, m.scopes.last()) { Some(*id) } else { None };
      let want = m.step(op);
      let got = r.step(op, ex);
      exs.resize(m.kinds.len(), None);
      if let Some(id) = id {
        exs[id] = r.exited.pop();
      }
      look(i, op, &got, &want, &mut r.p, &m)?;
    }
    Ok(())
  })();
  if let Err(e) = res {
    // the markers must not be dropped
    std::mem::forget(r);
    return Err(e);
  }
  let mut log = Log::default();
  if finish {
    r.p.finish(&mut log);
  }
  Ok((m, log.0))
}

// ---- trees

/// nodes without a token that is not trivia left out
fn pruned(items: &[Out]) -> Option<String> {
  let mut stack: Vec<(String, bool)> = vec![(String::new(), true)];
  for it in items {
    match it {
      Out::Enter(k) => stack.push((format!("({} ", k.0), false)),
      Out::Tok(k, _) if k.is_trivia() => {}
      Out::Tok(k, t) => {
        let top = stack.last_mut().unwrap();
        top.0 += &format!("{}:{t} ", k.0);
        top.1 = true;
      }
      Out::Exit => {
        let (s, full) = stack.pop()?;
        let top = stack.last_mut()?;
        if full {
          top.0 += &s;
          top.0 += ") ";
          top.1 = true;
        }
      }
      Out::Err(_) => {}
    }
  }
  if stack.len() == 1 { Some(stack.pop().unwrap().0) } else { None }
}

fn finished(m: &Model, log: &[Out]) -> Result<(), String> {
  let want: Vec<Out> = m
    .items
    .iter()
    .map(|i| match i {
      It::Open(id) => Out::Enter(m.kinds[*id].unwrap()),
      It::Close => Out::Exit,
      It::Tok(t) => Out::Tok(m.toks[*t], format!("t{t}")),
      It::Err(e) => Out::Err(e.clone()),
    })
    .collect();
  let Some(tree) = pruned(log) else { return Err(format!("the sink's nodes are not balanced: {log:?}")) };
  if Some(&tree) != pruned(&want).as_ref() {
    return Err(format!("the sink was told {log:?}, recorded was {want:?}"));
  }
  let toks: Vec<&Out> = log.iter().filter(|o| matches!(o, Out::Tok(..))).collect();
  for (i, t) in toks.iter().enumerate() {
    if i >= m.toks.len() || **t != Out::Tok(m.toks[i], format!("t{i}")) {
      return Err(format!("the tokens sent are not a prefix of the input: {log:?}"));
    }
  }
  let mark = |l: &[Out]| -> Vec<Option<E>> {
    l.iter()
      .filter_map(|o| match o {
        Out::Tok(k, _) if !k.is_trivia() => Some(None),
        Out::Err(e) => Some(Some(e.clone())),
        _ => None,
      })
      .collect()
  };
  if mark(log) != mark(&want) {
    return Err(format!("errors and tokens sent {log:?}, recorded {want:?}"));
  }
  // trivia stays outside of nodes inside others
  let mut depth = 0;
  for (i, o) in log.iter().enumerate() {
    match o {
      Out::Enter(_) => depth += 1,
      Out::Exit => depth -= 1,
      Out::Tok(k, _) if k.is_trivia() && depth > 1 && matches!(log[i - 1], Out::Enter(_)) => {
        return Err(format!("a node inside another one begins with trivia: {log:?}"));
      }
      _ => {}
    }
  }
  // if every bump was inside a node, every token is
  let outside = |l: &[Out]| {
    let mut depth = 0;
    l.iter().any(|o| {
      match o {
        Out::Enter(_) => depth += 1,
        Out::Exit => depth -= 1,
        Out::Tok(..) => return depth == 0,
        Out::Err(_) => {}
      }
      false
    })
  };
  if outside(log) && !outside(&want) {
    return Err(format!("a token was sent outside of every node: {log:?} for {want:?}"));
  }
  let (mut depth, mut settled) = (0, false);
  for o in &want {
    match o {
      Out::Enter(_) => {
        settled |= depth > 0;
        depth += 1;
      }
      Out::Exit => {
        depth -= 1;
        settled |= depth == 1;
      }
      Out::Tok(..) => settled = false,
      Out::Err(_) => {}
    }
  }
  if settled && m.toks.get(toks.len()).is_some_and(|k| k.is_trivia()) {
    return Err(format!("trivia after the last token was not sent: {log:?} for {want:?}"));
  }
  if toks.is_empty() {
    let mut w: Vec<Out> = want.iter().filter(|o| matches!(o, Out::Err(_))).cloned().collect();
    if let Some(id) = m.items.iter().filter_map(|i| if let It::Open(id) = i { Some(*id) } else { None }).min() {
      w.extend([Out::Enter(m.kinds[id].unwrap()), Out::Exit]);
    }
    if w != log {
      return Err(format!("no token was sent, and the sink was told {log:?}, not {w:?}"));
    }
  } else {
    // every node has a token
    for (i, o) in log.iter().enumerate() {
      if let Out::Enter(_) = o {
        if !matches!(log[i + 1..].iter().find(|o| !matches!(o, Out::Enter(_))), Some(Out::Tok(..))) {
          return Err(format!("a node without tokens was sent: {log:?}"));
        }
      }
    }
  }
  Ok(())
}

fn e01(r: &mut Run) {
  while r.more() {
    let pr = program(&mut r.rng, false);
    let non = pr.ops.iter().any(|o| matches!(o, Op::Precede(_) | Op::OkSince)) && pr.ops.len() > 6;
    r.case(pr.desc(), non, || {
      let (m, log) = run(&pr, true, &mut |_, _, _, _, _, _| Ok(()))?;
      finished(&m, &log)
    });
  }
}

/// the calls that were not undone by an `ok_since` that was false
fn effective(pr: &Program) -> (Vec<Op>, bool) {
  let mut m = Model::new(&pr.toks);
  let mut ops: Vec<Op> = vec![];
  let mut saves: Vec<usize> = vec![];
  let mut undone = false;
  for &op in &pr.ops {
    // without the saves, the candidates of the scopes around them come first
    let mut below = 0;
    for (i, sc) in m.scopes.iter().enumerate().rev() {
      if !matches!(sc, Scope::Save(..)) {
        break;
      }
      below += match if i == 0 { None } else { m.scopes.get(i - 1) } {
        None => m.root.len(),
        Some(Scope::Node(_, c) | Scope::Save(_, _, _, c)) => c.len(),
      };
    }
    let res = m.step(op);
    match op {
      Op::Precede(n) => ops.push(Op::Precede(n + below)),
      Op::Save => saves.push(ops.len()),
      Op::OkSince => {
        let n = saves.pop().unwrap();
        if res == Res::Bool(false) {
          ops.truncate(n);
          undone = true;
        }
      }
      _ => ops.push(op),
    }
  }
  (ops, undone)
}

fn e02(r: &mut Run) {
  while r.more() {
    let pr = program(&mut r.rng, false);
    if !pr.ops.contains(&Op::Save) {
      continue;
    }
    let (ops, undone) = effective(&pr);
    r.case(pr.desc(), undone, || {
      let mut empties = vec![];
      let mut saves: Vec<usize> = vec![];
      let (_, log) = run(&pr, true, &mut |i, op, got, want, p, m| {
        match op {
          Op::Exit(_) => empties.push(got.clone()),
          Op::Save => saves.push(empties.len()),
          Op::OkSince => {
            let n = saves.pop().unwrap();
            if got != want {
              return Err(format!("call {i}: ok_since gave {got:?}, not {want:?}"));
            }
            if *want == Res::Bool(false) {
              empties.truncate(n);
            }
            let after = index(p.peek());
            if after != m.nth(0) {
              return Err(format!("call {i}: after ok_since ({want:?}) the current token is {after:?}, not {:?}", m.nth(0)));
            }
          }
          _ => {}
        }
        Ok(())
      })?;
      let twin = Program { toks: pr.toks.clone(), ops };
      let mut twin_empties = vec![];
      let (_, twin_log) = run(&twin, true, &mut |_, op, got, _, _, _| {
        if let Op::Exit(_) = op {
          twin_empties.push(got.clone());
        }
        Ok(())
      })?;
      if log != twin_log {
        return Err(format!("the sink was told {log:?}; without what was undone, {twin_log:?}"));
      }
      if empties != twin_empties {
        return Err(format!("is_empty was {empties:?}; without what was undone, {twin_empties:?}"));
      }
      Ok(())
    });
  }
}

fn e03(r: &mut Run) {
  while r.more() {
    let mut pr = program(&mut r.rng, false);
    // no backtracking here
    pr.ops.retain(|o| !matches!(o, Op::Save | Op::OkSince));
    // candidates do not survive that
    if pr.ops.iter().any(|o| matches!(o, Op::Precede(_))) {
      let mut depth = 0usize;
      pr.ops = pr
        .ops
        .iter()
        .filter_map(|&o| match o {
          Op::Precede(_) => Some(Op::Enter),
          o => Some(o),
        })
        .collect();
      for o in &pr.ops {
        match o {
          Op::Enter => depth += 1,
          Op::Exit(_) | Op::Abandon => depth -= 1,
          _ => {}
        }
      }
      assert_eq!(depth, 0);
    }
    // bumps may now lack a token
    let mut m = Model::new(&pr.toks);
    let mut ops = vec![];
    for &o in &pr.ops {
      if o == Op::Bump && m.nth(0).is_none() {
        continue;
      }
      m.step(o);
      ops.push(o);
    }
    pr.ops = ops;
    let non = pr.ops.iter().filter(|o| matches!(o, Op::Peek | Op::PeekN(_) | Op::At(_) | Op::AtN(..) | Op::Eat(_))).count() > 1 && pr.toks.iter().any(Triviable::is_trivia);
    r.case(pr.desc(), non, || {
      run(&pr, false, &mut |i, op, got, want, p, m| {
        if matches!(op, Op::Bump | Op::Eat(_) | Op::Peek | Op::PeekN(_) | Op::At(_) | Op::AtN(..)) && got != want {
          return Err(format!("call {i}, {op:?}, gave {got:?}, not {want:?}"));
        }
        // the whole rest
        if i % 3 == 2 {
          for n in 0..=m.toks.len() {
            let t = index(p.peek_n(n));
            if t != m.nth(n) {
              return Err(format!("after call {i}, peek_n({n}) gave {t:?}, not {:?}", m.nth(n)));
            }
          }
        }
        Ok(())
      })?;
      // what eat records
      let errs: Vec<Op> = pr.ops.iter().copied().filter(|o| matches!(o, Op::Eat(_))).collect();
      if !errs.is_empty() {
        let tx = texts(pr.toks.len());
        let ts = tokens(&pr.toks, &tx);
        let mut p: Parser<'_, K, E> = Parser::new(&ts);
        let mut m = Model::new(&pr.toks);
        let en = p.enter();
        for o in &errs {
          let Op::Eat(k) = *o else { unreachable!() };
          m.step(*o);
          let _ = p.eat(k);
        }
        p.exit(en, K(10));
        let mut log = Log::default();
        p.finish(&mut log);
        let got: Vec<&E> = log.0.iter().filter_map(|o| if let Out::Err(e) = o { Some(e) } else { None }).collect();
        let want: Vec<&E> = m.items.iter().filter_map(|o| if let It::Err(e) = o { Some(e) } else { None }).collect();
        if got != want {
          return Err(format!("{errs:?} recorded {got:?}, not {want:?}"));
        }
      }
      Ok(())
    });
  }
}

fn e04(r: &mut Run) {
  while r.more() {
    let pr = program(&mut r.rng, false);
    let non = pr.ops.iter().any(|o| matches!(o, Op::Precede(_))) || pr.toks.iter().any(Triviable::is_trivia);
    r.case(pr.desc(), non, || {
      run(&pr, false, &mut |i, op, got, want, _, _| {
        if matches!(op, Op::Exit(_)) && got != want {
          return Err(format!("call {i}, {op:?}: is_empty is {got:?}, not {want:?}"));
        }
        Ok(())
      })
      .map(|_| ())
    });
  }
}

#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]
enum Lang {}
impl rowan::Language for Lang {
  type Kind = K;
  fn kind_from_raw(raw: rowan::SyntaxKind) -> K {
    K(raw.0)
  }
  fn kind_to_raw(kind: K) -> rowan::SyntaxKind {
    rowan::SyntaxKind(kind.0)
  }
}

fn tree_of(node: &rowan::SyntaxNode<Lang>, out: &mut Vec<Out>) {
  out.push(Out::Enter(node.kind()));
  for c in node.children_with_tokens() {
    match c {
      rowan::NodeOrToken::Node(n) => tree_of(&n, out),
      rowan::NodeOrToken::Token(t) => out.push(Out::Tok(t.kind(), t.text().to_owned())),
    }
  }
  out.push(Out::Exit);
}

const TEXTS: &[&str] = &["a", "bc", "é", " ", "\n", "𝄞", "", "xyz"];

fn e05(r: &mut Run) {
  while r.more() {
    let rng = &mut r.rng;
    let mut evs = vec![];
    let mut depth = 1usize;
    let (len, deep) = (rng.size(15), 2 + rng.size(2));
    let huge = rng.chance(1, 2000);
    for n in 0..rng.size(4) {
      if rng.chance(1, 4) {
        evs.push(Out::Err(E::Own(n as u32 + 100)));
      }
    }
    evs.push(Out::Enter(K(10)));
    for n in 0..len {
      match rng.below(8) {
        0 if depth < deep => {
          evs.push(Out::Enter(K(10 + rng.below(4) as u16)));
          depth += 1;
        }
        1 if depth > 1 => {
          evs.push(Out::Exit);
          depth -= 1;
        }
        2..=3 => evs.push(Out::Err(E::Own(n as u32))),
        _ => evs.push(Out::Tok(if rng.chance(1, 2) { K(rng.below(2) as u16) } else { K(2 + rng.below(3) as u16) }, if rng.chance(1, 30) { "long é".repeat(rng.below(if huge { 20_000 } else { 80 })) } else { (*rng.pick(TEXTS)).to_owned() })),
      }
    }
    for _ in 0..depth {
      if rng.chance(1, 4) {
        evs.push(Out::Err(E::Own(200)));
      }
      evs.push(Out::Exit);
    }
    if rng.chance(1, 4) {
      evs.push(Out::Err(E::Own(300)));
    }
    let nerr = evs.iter().filter(|e| matches!(e, Out::Err(_))).count();
    r.case(format!("sink calls {evs:?}"), nerr > 1, || {
      let mut s: RowanSink<K, E> = RowanSink::default();
      for e in &evs {
        match e {
          Out::Enter(k) => s.enter(*k),
          Out::Tok(k, t) => s.token(Token { kind: *k, text: t }),
          Out::Exit => s.exit(),
          Out::Err(e) => s.error(e.clone()),
        }
      }
      let (node, errors) = s.finish::<Lang>();
      let text: String = evs.iter().filter_map(|e| if let Out::Tok(_, t) = e { Some(t.as_str()) } else { None }).collect();
      if node.text().to_string() != text {
        return Err(format!("the text is {:?}, not {text:?}", node.text().to_string()));
      }
      let mut got = vec![];
      tree_of(&node, &mut got);
      let want: Vec<Out> = evs.iter().filter(|e| !matches!(e, Out::Err(_))).cloned().collect();
      if got != want {
        return Err(format!("the tree is {got:?}, not {want:?}"));
      }
      // where tokens lie
      let mut at = vec![];
      let mut pos = 0u32;
      for (i, e) in evs.iter().enumerate() {
        if let Out::Tok(k, t) = e {
          at.push((i, *k, pos, pos + t.len() as u32));
          pos += t.len() as u32;
        }
      }
      let mut n = 0;
      for (i, e) in evs.iter().enumerate() {
        let Out::Err(e) = e else { continue };
        let Some(g) = errors.get(n) else { return Err(format!("error {e:?} is lost")) };
        n += 1;
        let home = at.iter().find(|t| t.0 > i && !t.1.is_trivia()).or(at.last());
        let (start, end, kind) = home.map_or((0, 0, None), |t| (t.2, t.3, Some(t.1)));
        if g.inner != *e || u32::from(g.range.start()) != start || u32::from(g.range.end()) != end || g.kind != kind {
          return Err(format!("error {e:?} is {g:?}, not at {start}..{end} with {kind:?}"));
        }
      }
      if n != errors.len() {
        return Err(format!("{} errors too many", errors.len() - n));
      }
      Ok(())
    });
  }
}

fn main() {
  run_main(&[
    ("E01", "random calls that follow the protocol, over mostly up to 8, rarely 320 tokens; what finish sends against a reference tree", e01),
    ("E02", "random calls with saves; ok_since and everything after it against the same calls without what was undone", e02),
    ("E03", "random calls; peek, peek_n, at, at_n, bump, eat against the list of tokens that are not trivia", e03),
    ("E04", "random calls; is_empty against the tokens in a reference tree", e04),
    ("E05", "random balanced sink calls; the tree, its text and every error's place", e05),
  ]);
}
