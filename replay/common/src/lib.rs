//! What every replay oracle shares: the case loop, the random source and the report.
//!
//! `replay-<bin> NAME SEED BUDGET` prints one JSON object per line (see tools/run.py).

use std::collections::hash_map::DefaultHasher;
use std::collections::HashSet;
use std::fmt::Write as _;
use std::hash::{Hash, Hasher};
use std::io::{Seek, Write as _};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

/// SplitMix64.
#[derive(Clone)]
pub struct Rng(pub u64);

impl Rng {
  pub fn new(seed: u64) -> Self {
    Rng(seed.wrapping_mul(0x9e37_79b9_7f4a_7c15).wrapping_add(0x1234_5678_9abc_def1))
  }
  pub fn next(&mut self) -> u64 {
    self.0 = self.0.wrapping_add(0x9e37_79b9_7f4a_7c15);
    let mut z = self.0;
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
    z ^ (z >> 31)
  }
  /// A number below `n` (0 when `n` is 0).
  pub fn below(&mut self, n: usize) -> usize {
    if n == 0 { 0 } else { (self.next() % n as u64) as usize }
  }
  pub fn chance(&mut self, num: usize, den: usize) -> bool {
    self.below(den) < num
  }
  /// A size: mostly up to `small`, now and then ten times that, rarely a hundred times.
  pub fn size(&mut self, small: usize) -> usize {
    let most = match self.below(300) {
      0 => small * 100,
      1..=15 => small * 10,
      _ => small,
    };
    self.below(most + 1)
  }
  pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
    &xs[self.below(xs.len())]
  }
  /// A character that is seldom thought of.
  pub fn odd_char(&mut self) -> char {
    const ODD: &[char] = &[
      '\u{feff}', '\0', '\t', '\u{b}', '\u{c}', '\r', '\u{1b}', '\u{7f}', '\u{85}', '\u{a0}', '\u{ad}', '\u{301}', '\u{200b}', '\u{200d}',
      '\u{2028}', '\u{2029}', '\u{d7ff}', '\u{e000}', '\u{fffd}', '\u{fffe}', '\u{ffff}', '\u{10000}', '\u{10ffff}', 'İ', 'ǆ', 'ﬁ', 'ß', '５', '　',
    ];
    if self.chance(1, 2) {
      return *self.pick(ODD);
    }
    let bits = 3 + self.below(19);
    char::from_u32((self.next() % (1 << bits)) as u32).unwrap_or('\u{2060}')
  }
  /// A text of up to `max` characters of `cs`, sometimes with odd ones among them.
  pub fn text(&mut self, cs: &[char], max: usize) -> String {
    let n = self.below(max + 1);
    let odd = self.chance(1, 4);
    (0..n).map(|_| if odd && self.chance(1, 3) { self.odd_char() } else { *self.pick(cs) }).collect()
  }
  pub fn shuffle<T>(&mut self, xs: &mut [T]) {
    for i in (1..xs.len()).rev() {
      let j = self.below(i + 1);
      xs.swap(i, j);
    }
  }
}

pub fn json(s: &str) -> String {
  let mut r = String::from("\"");
  for c in s.chars() {
    match c {
      '"' => r.push_str("\\\""),
      '\\' => r.push_str("\\\\"),
      '\n' => r.push_str("\\n"),
      c if (c as u32) < 0x20 || c as u32 == 0x7f => {
        let _ = write!(r, "\\u{:04x}", c as u32);
      }
      c => r.push(c),
    }
  }
  r.push('"');
  r
}

pub struct Run {
  pub rng: Rng,
  deadline: Instant,
  evaluations: u64,
  distinct: HashSet<u64>,
  samples: Vec<String>,
  cur: std::fs::File,
  started: Arc<AtomicU64>,
  epoch: Instant,
  last: Arc<Mutex<String>>,
  stopped: bool,
}

impl Run {
  /// Whether to go on with another case.
  pub fn more(&self) -> bool {
    !self.stopped && Instant::now() < self.deadline
  }

  /// Fraction of the time used.
  pub fn left(&self) -> Duration {
    self.deadline.saturating_duration_since(Instant::now())
  }

  /// Runs one case. `desc` is the whole input, enough to run the case again by hand.
  pub fn case(&mut self, desc: String, nontrivial: bool, f: impl FnOnce() -> Result<(), String>) {
    if self.stopped {
      return;
    }
    let _ = self.cur.set_len(0);
    let _ = self.cur.rewind();
    let _ = self.cur.write_all(desc.as_bytes());
    *self.last.lock().unwrap() = desc.clone();
    self.started.store(self.epoch.elapsed().as_millis() as u64 + 1, Ordering::SeqCst);
    let res = catch_unwind(AssertUnwindSafe(f));
    self.started.store(0, Ordering::SeqCst);
    self.evaluations += 1;
    if nontrivial {
      let mut h = DefaultHasher::new();
      desc.hash(&mut h);
      self.distinct.insert(h.finish());
      if self.samples.len() < 3 && self.evaluations % 97 == 5 {
        self.samples.push(desc.chars().take(400).collect());
      }
    }
    let what = match res {
      Ok(Ok(())) => return,
      Ok(Err(e)) => e,
      Err(p) => format!("panic: {}", msg(&*p)),
    };
    self.fail(&what, &desc);
  }

  pub fn fail(&mut self, what: &str, input: &str) {
    println!("{{\"t\":\"fail\",\"what\":{},\"input\":{}}}", json(what), json(input));
    self.stopped = true;
  }

  /// Reports a known finding seen on this run.
  pub fn known(&self, id: &str) {
    println!("{{\"t\":\"known\",\"id\":{}}}", json(id));
  }
}

pub fn msg(p: &(dyn std::any::Any + Send)) -> String {
  p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| (*s).to_owned())).unwrap_or_default()
}

/// Whether `f` panics.
pub fn panics<R>(f: impl FnOnce() -> R) -> bool {
  catch_unwind(AssertUnwindSafe(f)).is_err()
}

/// `oracles`: name, what it enumerates, the function running the cases.
pub fn main(oracles: &[(&str, &str, fn(&mut Run))]) {
  let args: Vec<String> = std::env::args().collect();
  let name = args[1].clone();
  let seed: u64 = args[2].parse().unwrap();
  let budget: u64 = args[3].parse().unwrap();
  let (_, rule, f) = oracles.iter().find(|(n, _, _)| *n == name).expect("no such oracle");
  std::panic::set_hook(Box::new(|_| {}));
  let started = Arc::new(AtomicU64::new(0));
  let epoch = Instant::now();
  let last = Arc::new(Mutex::new(String::new()));
  {
    let (started, last) = (Arc::clone(&started), Arc::clone(&last));
    std::thread::spawn(move || loop {
      std::thread::sleep(Duration::from_millis(200));
      let s = started.load(Ordering::SeqCst);
      if s != 0 && epoch.elapsed().as_millis() as u64 > s + 20_000 {
        let d = last.lock().unwrap().clone();
        println!("{{\"t\":\"fail\",\"what\":\"did not finish within 20 s\",\"input\":{}}}", json(&d));
        std::process::exit(0);
      }
    });
  }
  let mut run = Run {
    rng: Rng::new(seed),
    deadline: Instant::now() + Duration::from_secs(budget),
    evaluations: 0,
    distinct: HashSet::new(),
    samples: Vec::new(),
    cur: std::fs::File::create(format!("replay-{name}.current")).unwrap(),
    started,
    epoch,
    last,
    stopped: false,
  };
  if let Err(p) = catch_unwind(AssertUnwindSafe(|| f(&mut run))) {
    eprintln!("the oracle itself panicked: {}", msg(&*p));
    std::process::exit(3);
  }
  let _ = std::fs::remove_file(format!("replay-{name}.current"));
  let samples: Vec<String> = run.samples.iter().map(|s| json(s)).collect();
  println!(
    "{{\"t\":\"done\",\"evaluations\":{},\"distinct\":{},\"rule\":{},\"samples\":[{}]}}",
    run.evaluations,
    run.distinct.len(),
    json(rule),
    samples.join(",")
  );
}
