//! Oracles for topo-sort.

use std::cell::RefCell;
use replay_common::{main as run_main, Rng, Run};
use std::collections::{BTreeMap, BTreeSet};
use topo_sort::graph::{get, Graph};
use topo_sort::{Set, Visitor, Work};

type G = Vec<(u32, Vec<u32>)>;

fn reach(g: &BTreeMap<u32, BTreeSet<u32>>, from: u32) -> BTreeSet<u32> {
  let mut seen = BTreeSet::new();
  let mut todo: Vec<u32> = g.get(&from).into_iter().flatten().copied().collect();
  while let Some(x) = todo.pop() {
    if seen.insert(x) {
      todo.extend(g.get(&x).into_iter().flatten().copied());
    }
  }
  seen
}

/// Whether no node reaches itself: nodes without incoming edges can be taken away until none is left.
fn acyclic(g: &BTreeMap<u32, BTreeSet<u32>>) -> bool {
  let mut into: BTreeMap<u32, usize> = g.keys().map(|&k| (k, 0)).collect();
  for m in g.values().flatten() {
    *into.entry(*m).or_default() += 1;
  }
  let total = into.len();
  let mut free: Vec<u32> = into.iter().filter(|x| *x.1 == 0).map(|x| *x.0).collect();
  let mut gone = 0;
  while let Some(x) = free.pop() {
    gone += 1;
    for m in g.get(&x).into_iter().flatten() {
      let n = into.get_mut(m).unwrap();
      *n -= 1;
      if *n == 0 {
        free.push(*m);
      }
    }
  }
  gone == total
}

fn check_graph(g: &BTreeMap<u32, BTreeSet<u32>>) -> Result<(), String> {
  let nodes: BTreeSet<u32> = g.keys().copied().chain(g.values().flatten().copied()).collect();
  let graph: Graph<u32> = g.clone();
  match get(&graph) {
    Ok(order) => {
      if !acyclic(g) {
        return Err(format!("Ok({order:?}) but there is a cycle"));
      }
      let pos: BTreeMap<u32, usize> = order.iter().enumerate().map(|(i, n)| (*n, i)).collect();
      if pos.len() != order.len() || !pos.keys().eq(nodes.iter()) {
        return Err(format!("order {order:?} is not the nodes {nodes:?} once each"));
      }
      for (n, ms) in g {
        for m in ms {
          if pos[m] >= pos[n] {
            return Err(format!("{m} not before {n} in {order:?}"));
          }
        }
      }
      Ok(())
    }
    Err(e) => {
      let w = e.witness();
      if reach(g, w).contains(&w) { Ok(()) } else { Err(format!("witness {w} does not reach itself")) }
    }
  }
}

fn t01(run: &mut Run) {
  // every graph on up to 3 nodes, and every subset of keys
  for n in 1..=3u32 {
    let edges: Vec<(u32, u32)> = (0..n).flat_map(|a| (0..n).map(move |b| (a, b))).collect();
    for bits in 0..(1u32 << edges.len()) {
      for keys in 0..(1u32 << n) {
        let mut g = BTreeMap::<u32, BTreeSet<u32>>::new();
        for k in 0..n {
          if keys & (1 << k) != 0 {
            g.insert(k, BTreeSet::new());
          }
        }
        let mut skip = false;
        for (i, (a, b)) in edges.iter().enumerate() {
          if bits & (1 << i) != 0 {
            match g.get_mut(a) {
              Some(s) => {
                s.insert(*b);
              }
              None => skip = true,
            }
          }
        }
        if !skip && run.more() {
          run.case(format!("graph {g:?}"), !g.is_empty(), || check_graph(&g));
        }
      }
    }
  }
  for (what, n) in [("path", 70_000u32), ("reversed path", 70_000), ("star", 70_000), ("ring", 70_000), ("path", 300), ("ring", 1000)] {
    let mut g = BTreeMap::<u32, BTreeSet<u32>>::new();
    for i in 0..n {
      match what {
        "star" => {
          g.entry(n).or_default().insert(i);
        }
        "reversed path" => {
          g.entry(i + 1).or_default().insert(i);
        }
        _ => {
          g.entry(i).or_default().insert(if what == "ring" { (i + 1) % n } else { i + 1 });
        }
      }
    }
    run.case(format!("{what} of {n} nodes"), true, || check_graph(&g).map_err(|e| e.chars().take(1000).collect()));
  }
  while run.more() {
    let mut rng = run.rng.clone();
    run.rng.next();
    let n = 1 + rng.size(13) as u32;
    let dag = rng.chance(1, 2);
    let back = rng.chance(1, 2);
    let dens = 1 + rng.below(5);
    let mut perm: Vec<u32> = (0..n).collect();
    rng.shuffle(&mut perm);
    let mut g = BTreeMap::<u32, BTreeSet<u32>>::new();
    for i in 0..n as usize {
      if rng.chance(1, 8) {
        continue;
      }
      let e = g.entry(perm[i]).or_default();
      if n > 100 {
        for _ in 0..dens {
          e.insert(perm[rng.below(if dag { i } else { n as usize })]);
        }
        if dag {
          e.remove(&perm[i]);
        }
        continue;
      }
      for j in 0..n as usize {
        if (!dag || j < i) && rng.chance(dens, n as usize + 4) {
          e.insert(perm[j]);
        }
      }
    }
    if dag && back {
      // one extra edge, often closing a long cycle
      let a = perm[rng.below(n as usize)];
      let b = perm[rng.below(n as usize)];
      g.entry(a).or_default().insert(b);
    }
    run.case(format!("graph {g:?}"), g.len() > 1, || check_graph(&g));
  }
}

// ---------------------------------------------------------------- the generic sort

/// A scripted visitor: `enter` skips some elements, `process` pushes a listed sequence.
struct Scripted<'a, S> {
  skip: &'a BTreeSet<u32>,
  skip_after: &'a BTreeMap<u32, usize>,
  kids: &'a G,
  log: RefCell<Vec<Ev>>,
  clock: usize,
  _s: std::marker::PhantomData<S>,
}

#[derive(Debug, Clone, PartialEq, Eq)]
enum Ev {
  Enter(u32, Option<u32>),
  Process(u32, u32),
  Exit(u32, usize),
}

/// What `enter` answers: depends on the element and on how many elements were processed so far.
fn enters(skip: &BTreeSet<u32>, after: &BTreeMap<u32, usize>, v: u32, clock: usize) -> Option<u32> {
  if skip.contains(&v) || after.get(&v).is_some_and(|&n| clock >= n) {
    None
  } else {
    Some(v.wrapping_mul(31).wrapping_add(clock as u32))
  }
}

fn kids_of(g: &G, v: u32) -> Vec<u32> {
  g.iter().filter(|(a, _)| *a == v).flat_map(|(_, b)| b.iter().copied()).collect()
}

impl<S: Set<Elem = u32>> Visitor for Scripted<'_, S> {
  type Elem = u32;
  type Data = u32;
  type Set = S;
  fn enter(&self, value: u32) -> Option<u32> {
    let r = enters(self.skip, self.skip_after, value, self.clock);
    self.log.borrow_mut().push(Ev::Enter(value, r));
    r
  }
  fn process(&mut self, value: u32, data: u32, work: &mut Work<u32>) {
    self.log.borrow_mut().push(Ev::Process(value, data));
    self.clock += 1;
    work.extend(kids_of(self.kids, value));
  }
  fn exit(&mut self, value: u32, level: usize) {
    self.log.borrow_mut().push(Ev::Exit(value, level));
  }
}

fn check_generic<S: Set<Elem = u32>>(
  start: &[u32],
  skip: &BTreeSet<u32>,
  after: &BTreeMap<u32, usize>,
  kids: &G,
) -> Result<(), String> {
  let mut v =
    Scripted::<S> { skip, skip_after: after, kids, log: RefCell::default(), clock: 0, _s: std::marker::PhantomData };
  let mut w: Work<u32> = start.iter().copied().take(start.len() / 2).collect();
  for &x in &start[start.len() / 2..] {
    w.push(x);
  }
  let ret = w.run(&mut v);
  let log = v.log.into_inner();
  // everything is decided from the history of calls, whatever order siblings are visited in
  let mut open: Vec<(u32, usize)> = vec![];
  let mut exited = BTreeSet::new();
  let mut cycle = None;
  let entered = |from: usize, to: usize, k: u32| log[from..to].iter().any(|e| matches!(e, Ev::Enter(y, _) if *y == k));
  for (i, e) in log.iter().enumerate() {
    match *e {
      Ev::Enter(_, None) => {}
      Ev::Enter(x, Some(d)) => {
        if open.iter().any(|&(y, _)| x == y) {
          cycle = cycle.or(Some(x));
        } else if !exited.contains(&x) && log.get(i + 1) != Some(&Ev::Process(x, d)) {
          return Err(format!("{x} entered and not processed: {log:?}"));
        }
      }
      Ev::Process(x, d) => {
        if open.iter().any(|&(y, _)| x == y) || exited.contains(&x) {
          return Err(format!("{x} processed twice: {log:?}"));
        }
        if i == 0 || log[i - 1] != Ev::Enter(x, Some(d)) {
          return Err(format!("{x} processed without being entered: {log:?}"));
        }
        open.push((x, i));
      }
      Ev::Exit(x, l) => {
        match open.pop() {
          Some((y, at)) if y == x && l == open.len() => {
            for k in kids_of(kids, x) {
              if !exited.contains(&k) && !entered(at, i, k) {
                return Err(format!("{x} exited before its {k} was handled: {log:?}"));
              }
            }
          }
          _ => return Err(format!("exit({x}, {l}) out of order: {log:?}")),
        }
        if !exited.insert(x) {
          return Err(format!("{x} exited twice: {log:?}"));
        }
      }
    }
  }
  if !open.is_empty() {
    return Err(format!("{open:?} never exited: {log:?}"));
  }
  for s in start {
    if !exited.contains(s) && !entered(0, log.len(), *s) {
      return Err(format!("{s} was never started: {log:?}"));
    }
  }
  for e in &log {
    let x = match *e {
      Ev::Enter(x, _) | Ev::Process(x, _) | Ev::Exit(x, _) => x,
    };
    if !start.contains(&x) && !kids.iter().any(|(_, b)| b.contains(&x)) {
      return Err(format!("{x} came from nowhere"));
    }
  }
  if ret.cycle != cycle {
    return Err(format!("cycle {:?}, expected {cycle:?}: {log:?}", ret.cycle));
  }
  if (0..kids.len() as u32 + 9).any(|x| ret.done.contains(&x) != exited.contains(&x)) {
    return Err("done is not the set of exited elements".to_owned());
  }
  Ok(())
}

/// A law-abiding set of another kind.
#[derive(Default)]
struct VecSet(Vec<u32>);

impl Set for VecSet {
  type Elem = u32;
  fn contains(&self, v: &u32) -> bool {
    self.0.contains(v)
  }
  fn insert(&mut self, v: u32) -> bool {
    let new = !self.0.contains(&v);
    if new {
      self.0.push(v);
    }
    new
  }
  fn remove(&mut self, v: &u32) -> bool {
    let n = self.0.len();
    self.0.retain(|x| x != v);
    n != self.0.len()
  }
  fn is_empty(&self) -> bool {
    self.0.is_empty()
  }
}

fn gen_generic(rng: &mut Rng) -> (Vec<u32>, BTreeSet<u32>, BTreeMap<u32, usize>, G) {
  let n = 1 + rng.size(8) as u32;
  let kids: G = (0..n)
    .map(|a| (a, (0..rng.below(5)).map(|_| rng.below(n as usize) as u32).collect()))
    .filter(|_| true)
    .collect();
  let dag = rng.chance(1, 3);
  let kids =
    if dag { kids.into_iter().map(|(a, b)| (a, b.into_iter().filter(|x| *x > a).collect())).collect() } else { kids };
  let skip = (0..n).filter(|_| rng.chance(1, 7)).collect();
  let mut after = BTreeMap::new();
  if rng.chance(1, 4) {
    after.insert(rng.below(n as usize) as u32, rng.below(4));
  }
  let start = (0..rng.below(5)).map(|_| rng.below(n as usize) as u32).collect();
  (start, skip, after, kids)
}

fn t02(run: &mut Run) {
  let mut i = 0usize;
  while run.more() {
    let (start, skip, after, kids) = gen_generic(&mut run.rng);
    let which = i % 4;
    i += 1;
    let desc = format!("set kind {which}, start {start:?}, skip {skip:?}, skip once n were processed {after:?}, pushes {kids:?}");
    run.case(desc, !start.is_empty(), || match which {
      0 => check_generic::<BTreeSet<u32>>(&start, &skip, &after, &kids),
      1 => check_generic::<rustc_hash::FxHashSet<u32>>(&start, &skip, &after, &kids),
      2 => check_generic::<std::collections::HashSet<u32, std::hash::BuildHasherDefault<std::collections::hash_map::DefaultHasher>>>(
        &start, &skip, &after, &kids,
      ),
      _ => check_generic::<VecSet>(&start, &skip, &after, &kids),
    });
    if i % 64 == 0 {
      // the set operations themselves
      let (len, range) = (12 + run.rng.size(4), 4 + run.rng.size(1));
      let ops: Vec<(u8, u32)> = (0..len).map(|_| (run.rng.below(4) as u8, run.rng.below(range) as u32)).collect();
      run.case(format!("set operations {ops:?}"), true, || {
        set_ops::<BTreeSet<u32>>(&ops)?;
        set_ops::<rustc_hash::FxHashSet<u32>>(&ops)?;
        set_ops::<std::collections::HashSet<u32, std::hash::BuildHasherDefault<std::collections::hash_map::DefaultHasher>>>(&ops)
      });
    }
  }
}

fn set_ops<S: Set<Elem = u32>>(ops: &[(u8, u32)]) -> Result<(), String> {
  let mut s = S::default();
  let mut m = VecSet::default();
  for &(o, v) in ops {
    let (a, b) = match o {
      0 => (s.insert(v), m.insert(v)),
      1 => (s.remove(&v), m.remove(&v)),
      2 => (s.contains(&v), m.contains(&v)),
      _ => (s.is_empty(), m.is_empty()),
    };
    if a != b {
      return Err(format!("operation {o} on {v} gave {a}"));
    }
  }
  Ok(())
}

fn main() {
  run_main(&[
    ("T01", "all graphs on up to 3 nodes with every key set, then paths, stars and rings of 70000 nodes, random graphs of up to 14, rarely 1300 nodes (dense, sparse, acyclic, one back edge); a case counts once, and as non-trivial when the graph has more than one key (any key for the enumerated ones)", t01),
    ("T02", "random scripted visitors over up to 9, rarely 800 elements and four set types, judged from the history of calls; a case counts once, and as non-trivial when something is started", t02),
  ]);
}
