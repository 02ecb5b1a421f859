//! Oracles for fast-hash and chain-map.

use chain_map::ChainMap;
use replay_common::{main as run_main, panics, Run};
use std::collections::{BTreeMap, BTreeSet};

type M = ChainMap<String, u32>;
type Model = BTreeMap<String, u32>;

const KEYS: usize = 5;

fn key(i: usize) -> String {
  if i < KEYS { ["", "a", "b", "ab", "ba"][i].to_owned() } else { format!("k{i}") }
}

#[derive(Debug, Clone)]
enum Op {
  Insert(usize, usize, u32),
  Extend(usize, Vec<(usize, u32)>),
  Append(usize, usize),
  FromIter(usize, Vec<(usize, u32)>),
  FromArray(usize, [(usize, u32); 3]),
  Clone(usize, usize),
  GetMut(usize, usize, u32),
  Remove(usize, usize),
  Consolidate(usize),
  Iter(usize),
  IterMut(usize, u32),
  IterMutSome(usize, u32, usize),
  Drain(usize, usize),
  IntoIter(usize),
  Default(usize),
}

const MAPS: usize = 3;

fn check_all(maps: &[M], models: &[Model], keys: usize) -> Result<(), String> {
  for (n, (m, want)) in maps.iter().zip(models).enumerate() {
    if m.is_empty() != want.is_empty() {
      return Err(format!("map {n}: is_empty is {} but it holds {want:?}", m.is_empty()));
    }
    for k in 0..keys {
      let k = key(k);
      let got = m.get(k.as_str()).copied();
      if got != want.get(&k).copied() {
        return Err(format!("map {n}: get({k:?}) is {got:?} but {:?} was stored", want.get(&k)));
      }
      if m.get(&k) != m.get(k.as_str()) {
        return Err(format!("map {n}: get by String and by str differ for {k:?}"));
      }
    }
  }
  Ok(())
}

fn same(what: &str, got: Vec<(String, u32)>, want: &Model) -> Result<(), String> {
  let mut g = got.clone();
  g.sort();
  let w: Vec<(String, u32)> = want.iter().map(|(k, v)| (k.clone(), *v)).collect();
  if g == w { Ok(()) } else { Err(format!("{what} gave {got:?} but the map holds {w:?}")) }
}

fn run_ops(ops: &[Op], keys: usize, deep: bool) -> Result<(), String> {
  let mut maps: Vec<M> = (0..MAPS).map(|_| M::default()).collect();
  let mut models: Vec<Model> = vec![Model::new(); MAPS];
  for (i, op) in ops.iter().enumerate() {
    match op {
      Op::Insert(m, k, v) => {
        let r = maps[*m].insert(key(*k), *v);
        let want = models[*m].insert(key(*k), *v).is_none();
        if r != want {
          return Err(format!("insert({:?}) returned {r}", key(*k)));
        }
      }
      Op::Extend(m, kv) => {
        maps[*m].extend(kv.iter().map(|(k, v)| (key(*k), *v)));
        models[*m].extend(kv.iter().map(|(k, v)| (key(*k), *v)));
      }
      Op::FromIter(m, kv) => {
        maps[*m] = kv.iter().map(|(k, v)| (key(*k), *v)).collect();
        models[*m] = kv.iter().map(|(k, v)| (key(*k), *v)).collect();
      }
      Op::FromArray(m, kv) => {
        maps[*m] = M::from(kv.map(|(k, v)| (key(k), v)));
        models[*m] = kv.iter().map(|(k, v)| (key(*k), *v)).collect();
      }
      Op::Append(a, b) if a != b => {
        let mut other = std::mem::take(&mut maps[*b]);
        maps[*a].append(&mut other);
        maps[*b] = other;
        let o = std::mem::take(&mut models[*b]);
        models[*a].extend(o);
      }
      Op::Append(..) => {}
      Op::Clone(a, b) => {
        maps[*a] = maps[*b].clone();
        models[*a] = models[*b].clone();
      }
      Op::GetMut(m, k, v) => {
        let got = maps[*m].get_mut(key(*k).as_str());
        let want = models[*m].get_mut(&key(*k));
        match (got, want) {
          (None, None) => {}
          (Some(g), Some(w)) => {
            if g != w {
              return Err(format!("get_mut({:?}) is {g} but {w} was stored", key(*k)));
            }
            *g = *v;
            *w = *v;
          }
          (g, w) => return Err(format!("get_mut({:?}) is {g:?} but {w:?} was stored", key(*k))),
        }
      }
      Op::Remove(m, k) => {
        let got = maps[*m].remove(key(*k).as_str());
        let want = models[*m].remove(&key(*k));
        if got != want {
          return Err(format!("remove({:?}) is {got:?} but {want:?} was stored", key(*k)));
        }
      }
      Op::Consolidate(m) => maps[*m].consolidate(),
      Op::Iter(m) => same("iter", maps[*m].iter().map(|(k, v)| (k.clone(), *v)).collect(), &models[*m])?,
      Op::IterMut(m, add) => {
        let mut got = Vec::new();
        for (k, v) in maps[*m].iter_mut() {
          got.push((k.clone(), *v));
          *v += add;
        }
        same("iter_mut", got, &models[*m])?;
        models[*m].values_mut().for_each(|v| *v += add);
      }
      Op::IterMutSome(m, add, n) => {
        for (k, v) in maps[*m].iter_mut().take(*n) {
          *v += add;
          *models[*m].get_mut(k).ok_or_else(|| format!("iter_mut gave {k:?}"))? += add;
        }
      }
      Op::Drain(m, n) => {
        let all = *n >= models[*m].len();
        let got: Vec<(String, u32)> = maps[*m].drain().take(*n).collect();
        if all {
          same("drain", got, &models[*m])?;
        } else {
          let s: BTreeSet<&String> = got.iter().map(|x| &x.0).collect();
          if s.len() != got.len() || got.iter().any(|(k, v)| models[*m].get(k) != Some(v)) {
            return Err(format!("drain gave {got:?} of {:?}", models[*m]));
          }
        }
        models[*m].clear();
      }
      Op::IntoIter(m) => {
        let x = std::mem::take(&mut maps[*m]);
        same("into_iter", x.into_iter().collect(), &models[*m])?;
        models[*m].clear();
      }
      Op::Default(m) => {
        maps[*m] = M::default();
        models[*m] = Model::new();
      }
    }
    if deep && (keys == KEYS || i % 16 == 0) && (ops.len() < 100 || i % 4 == 0) {
      check_all(&maps, &models, keys).map_err(|e| format!("after {op:?}: {e}"))?;
    }
  }
  check_all(&maps, &models, keys)?;
  for (m, want) in maps.into_iter().zip(&models) {
    same("iter at the end", m.iter().map(|(k, v)| (k.clone(), *v)).collect(), want)?;
    same("into_iter at the end", m.into_iter().collect(), want)?;
  }
  Ok(())
}

fn pairs(run: &mut Run, keys: usize) -> Vec<(usize, u32)> {
  let n = if keys == KEYS { run.rng.below(5) } else { run.rng.size(keys.min(20)) };
  (0..n).map(|_| (run.rng.below(keys), run.rng.below(9) as u32)).collect()
}

fn history(run: &mut Run, deep: bool) {
  while run.more() {
    let most = if run.rng.chance(1, 20) { 60 } else { 14 };
    let mut n = 1 + run.rng.size(most);
    let maps = 1 + run.rng.below(MAPS);
    let keys = match run.rng.below(100) {
      0 => 600,
      1..=9 => 40,
      _ => KEYS,
    };
    // mostly adding to shared maps, which makes long chains
    let chain = run.rng.chance(1, 20);
    if chain {
      n = n.max(1 + run.rng.below(300));
    }
    let mut ops = Vec::new();
    for _ in 0..n {
      let m = run.rng.below(maps);
      let k = run.rng.below(keys);
      let v = run.rng.below(9) as u32;
      let c = if chain && !run.rng.chance(1, 40) { *run.rng.pick(&[0, 0, 0, 6, 9, 9, 9]) } else { run.rng.below(22) };
      ops.push(match c {
        0..=5 => Op::Insert(m, k, v),
        6 => Op::Extend(m, pairs(run, keys)),
        7 => Op::FromIter(m, pairs(run, keys)),
        8 => Op::Append(m, run.rng.below(maps)),
        9 | 10 if chain => Op::Clone(MAPS - 1, m),
        9 | 10 => Op::Clone(m, run.rng.below(maps)),
        11 | 12 => Op::GetMut(m, k, v),
        13 | 14 => Op::Remove(m, k),
        15 => Op::Consolidate(m),
        16 => Op::Iter(m),
        17 => Op::IterMut(m, v),
        18 => Op::IterMutSome(m, v, run.rng.below(keys)),
        19 => Op::Drain(m, run.rng.below(keys * 2)),
        20 => Op::IntoIter(m),
        _ => {
          if run.rng.chance(1, 2) {
            Op::Default(m)
          } else {
            Op::FromArray(m, [(k, v), (run.rng.below(keys), 7), (run.rng.below(keys), 8)])
          }
        }
      });
    }
    run.case(format!("{ops:?}"), n > 1, || run_ops(&ops, keys, deep));
  }
}

fn c01(run: &mut Run) {
  history(run, true);
}

fn c03(run: &mut Run) {
  history(run, false);
}

fn check_n<const N: usize>(xs: [(u32, u32); N]) -> Result<(), String> {
  let keys: BTreeSet<u32> = xs.iter().map(|x| x.0).collect();
  let dup = keys.len() != N;
  let mut got = None;
  if panics(|| got = Some(fast_hash::map(xs))) != dup {
    return Err(format!("map panicked: {}, equal keys: {dup}", !dup));
  }
  if let Some(m) = got {
    let g: BTreeMap<u32, u32> = m.iter().map(|(k, v)| (*k, *v)).collect();
    let w: BTreeMap<u32, u32> = xs.into_iter().collect();
    if g != w || m.len() != N {
      return Err(format!("map is {g:?}"));
    }
  }
  let mut got = None;
  if panics(|| got = Some(fast_hash::set(xs.map(|x| x.0)))) != dup {
    return Err(format!("set panicked: {}, equal elements: {dup}", !dup));
  }
  if let Some(s) = got {
    let g: BTreeSet<u32> = s.iter().copied().collect();
    if g != keys || s.len() != N {
      return Err(format!("set is {g:?}"));
    }
  }
  Ok(())
}

fn u04(run: &mut Run) {
  for cap in [0usize, 1, 7, 1000] {
    run.case(format!("capacity {cap}"), true, || {
      let m = fast_hash::map_with_capacity::<u32, u32>(cap);
      let s = fast_hash::set_with_capacity::<u32>(cap);
      if m.is_empty() && s.is_empty() && m.get(&0).is_none() { Ok(()) } else { Err("not empty".to_owned()) }
    });
  }
  fn one<const N: usize>(run: &mut Run) {
    let range = *run.rng.pick(&[4, 40, 40 * N.max(1), N * N * 4 + 1]);
    let mut xs = [(0u32, 0u32); N];
    for x in &mut xs {
      *x = ((run.rng.below(range) as u32).wrapping_mul(if run.rng.chance(1, 30) { 1 << 16 } else { 1 }), run.rng.below(100) as u32);
    }
    run.case(format!("{xs:?}"), N > 1, || check_n(xs));
  }
  while run.more() {
    one::<0>(run);
    one::<1>(run);
    one::<2>(run);
    one::<3>(run);
    one::<4>(run);
    one::<5>(run);
    one::<8>(run);
    one::<17>(run);
    if run.rng.chance(1, 8) {
      one::<33>(run);
      one::<70>(run);
      one::<300>(run);
    }
  }
}

fn main() {
  run_main(&[
    ("C01", "random histories (mostly up to 14 operations and 5 keys, rarely 1400 and 600) of all operations on up to 3 maps (clones share layers), every lookup compared with a BTreeMap after every step", c01),
    ("C02", "random histories (mostly up to 14 operations and 5 keys, rarely 1400 and 600) of all operations on up to 3 maps (clones share layers), every lookup compared with a BTreeMap after every step", c01),
    ("C03", "random histories (mostly up to 14 operations and 5 keys, rarely 1400 and 600) of all operations on up to 3 maps, everything the iterators give compared with a BTreeMap", c03),
    ("U04", "random arrays of 0 to 300 entries with few or many equal keys", u04),
  ]);
}
