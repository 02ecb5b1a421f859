//! Oracles for the small crates: uniq, idx, always, text-size-util, elapsed, fmt-util, str-util, diagnostic.

use replay_common::{main as run_main, panics, Rng, Run};
use std::borrow::Borrow;
use std::fmt::{self, Display, Write};
use std::str::FromStr;
use std::sync::Mutex;
use std::time::{Duration, Instant};

// ---------------------------------------------------------------- U01

fn u01(run: &mut Run) {
  // one maker over (almost) all of its identifiers, a chunk of calls per case, as far as half of the time goes
  const CHUNK: u64 = if cfg!(debug_assertions) { 1 << 25 } else { 1 << 28 };
  const ALL: u64 = (1 << 32) - 1;
  let mut long = uniq::UniqMk::default();
  let mut calls = 0u64;
  let mut kept: Vec<(u64, uniq::Uniq)> = Vec::new();
  let whole = run.left();
  run.case("the texts of 1500000 identifiers of one maker".to_owned(), true, || {
    let mut mk = uniq::UniqMk::default();
    let mut seen = std::collections::HashMap::new();
    for n in 0..1_500_000 {
      if let Some(m) = seen.insert(mk.mk().to_string(), n) {
        return Err(format!("calls {m} and {n} return identifiers of the same text"));
      }
    }
    Ok(())
  });
  let mut n = 0usize;
  while run.more() {
    n += 1;
    if n > 4 && calls < ALL && (n % 2 == 0) && run.left() * 2 > whole {
      let to = (calls + CHUNK).min(ALL);
      run.case(format!("calls number {calls} to {to} of mk on one maker"), true, || {
        let mut prev = kept.last().map(|&(_, u)| u);
        while calls < to {
          let u = std::hint::black_box(&mut long).mk();
          if prev.is_some_and(|p| !(p < u) || p == u) {
            return Err(format!("call {calls} returned {u:?} after {prev:?}"));
          }
          if calls & 0xff_ffff == 0 || calls.is_power_of_two() || (calls + 1).is_power_of_two() || calls == 1000 || calls + 1 == to {
            kept.push((calls, u));
          }
          prev = Some(u);
          calls += 1;
        }
        let Some(&(at, u)) = kept.last() else { return Ok(()) };
        for &(i, k) in &kept {
          if i != at && (!(k < u) || k == u || u <= k || k.max(u) != u || format!("{k}") == format!("{u}")) {
            return Err(format!("call {at} returned {u:?}, and call {i} {k:?}"));
          }
        }
        Ok(())
      });
      continue;
    }
    let len = match n {
      1 => 70_000,
      2 => 40_000_000,
      _ => run.rng.below(1000),
    };
    let copies = run.rng.chance(1, 2);
    run.case(format!("{len} calls of mk on one maker (interleaved with another maker: {copies})"), len > 1, || {
      let mut mk = uniq::UniqMk::default();
      let mut other = uniq::UniqMk::default();
      let mut prev: Option<uniq::Uniq> = None;
      for i in 0..len {
        if copies && i % 3 == 0 {
          other.mk();
        }
        let u = mk.mk();
        if let Some(p) = prev {
          // each larger than the one before: larger than and different from all before
          if !(p < u) || p == u || format!("{p}") == format!("{u}") && i < 2000 {
            return Err(format!("call {i} returned {u:?} after {p:?}"));
          }
        }
        prev = Some(u);
      }
      Ok(())
    });
  }
}

// ---------------------------------------------------------------- U02

fn interesting(rng: &mut Rng) -> u64 {
  let base = [0u64, 1, 2, 0x7f, 0x80, 0xff, 0x100, 0x7fff, 0x8000, 0xffff, 0x1_0000, 0x7fff_ffff, 0x8000_0000, 0xffff_ffff,
    0x1_0000_0000, 0x1_0000_0001, 0xffff_ffff_ffff_ffff, 0xffff_ffff_0000_0000];
  match rng.below(4) {
    0 => *rng.pick(&base),
    1 => rng.pick(&base).wrapping_add(rng.next() % 5).wrapping_sub(2),
    2 => rng.next() >> rng.below(64),
    _ => rng.next() & 0xffff_ffff,
  }
}

fn u02(run: &mut Run) {
  while run.more() {
    let n = interesting(&mut run.rng);
    let m = interesting(&mut run.rng);
    run.case(format!("n = {n:#x}, m = {m:#x}"), true, || {
      let (n, m) = (n as usize, m as usize);
      let fits = |x: usize| x as u64 <= u64::from(u32::MAX);
      let mk = |x: usize| -> Result<Option<idx::Idx>, String> {
        let mut out = None;
        let p = panics(|| out = Some(idx::Idx::new(x)));
        if p == fits(x) {
          return Err(format!("Idx::new({x:#x}) panics: {p}"));
        }
        Ok(out)
      };
      let (a, b) = (mk(n)?, mk(m)?);
      for (x, i) in [(n, a), (m, b)] {
        if let Some(i) = i {
          if i.to_usize() != x {
            return Err(format!("Idx::new({x:#x}).to_usize() is {:#x}", i.to_usize()));
          }
          if idx::Idx::new_u32(x as u32) != i {
            return Err(format!("Idx::new_u32({x:#x}) differs from Idx::new"));
          }
        }
      }
      if let (Some(a), Some(b)) = (a, b) {
        if a.cmp(&b) != n.cmp(&m) || (a == b) != (n == m) {
          return Err("indices compare differently from their numbers".to_owned());
        }
      }
      let mut ts = None;
      if panics(|| ts = Some(text_size_util::mk_text_size(n))) == fits(n) {
        return Err(format!("mk_text_size({n:#x}) panics wrongly"));
      }
      if let Some(t) = ts {
        if usize::from(t) != n {
          return Err(format!("mk_text_size({n:#x}) is {t:?}"));
        }
      }
      let mut to = None;
      let p = panics(|| to = Some(always::convert::usize_to_u32(n)));
      let want = if fits(n) { Some(n as u32) } else if cfg!(debug_assertions) { None } else { Some(u32::MAX) };
      if to != want || p != want.is_none() {
        return Err(format!("usize_to_u32({n:#x}) is {to:x?}, not {want:x?} (None: it panics)"));
      }
      if always::convert::u32_to_usize(n as u32) != (n as u32) as usize {
        return Err(format!("u32_to_usize({:#x}) is {:#x}", n as u32, always::convert::u32_to_usize(n as u32)));
      }
      let (lo, hi) = ((n as u32).min(m as u32), (n as u32).max(m as u32));
      let range = text_size_util::TextRange::new(lo.into(), hi.into());
      let w = text_size_util::WithRange { val: "v", range };
      let w2 = w.wrap(n);
      if w2.val != n || w2.range != range {
        return Err(format!("WithRange::wrap gave {w2:?}"));
      }
      Ok(())
    });
    let k = run.rng.below(6);
    run.case(format!("PathId::wrap of path number {k}"), false, || {
      let mut store = paths::Store::default();
      let mut id = None;
      for i in 0..=k {
        let p = paths::CleanPathBuf::new(&format!("/p{i}")).ok_or("not absolute")?;
        id = Some(store.get_id(p.as_clean_path()));
      }
      let id = id.ok_or("no id")?;
      let w = id.wrap(k);
      if w.path != id || w.val != k { Err(format!("PathId::wrap gave {w:?}")) } else { Ok(()) }
    });
  }
}

// ---------------------------------------------------------------- U03

fn text(rng: &mut Rng, max: usize) -> String {
  const CS: &[char] = &['a', 'b', 'Z', '0', ' ', '\n', '\0', '_', 'é', 'ß', '語', '😀', '\u{301}', '"', '\\', ':', ','];
  rng.text(CS, max)
}

fn u03(run: &mut Run) {
  let mut n = 0;
  while run.more() {
    n += 1;
    let s = match n {
      1 => String::new(),
      2 => " ".to_owned(),
      3 => "\0".to_owned(),
      4..=60 => "x".repeat(n - 3),
      _ => {
        let max = run.rng.size(40);
        text(&mut run.rng, max)
      }
    };
    run.case(format!("{s:?}"), s.len() > 1, || {
      let t = str_util::Name::try_new(s.as_str());
      if t.is_none() != s.is_empty() {
        return Err(format!("try_new gave {t:?}"));
      }
      if str_util::Name::try_new(s.clone()) != t || str_util::Name::try_new(str_util::SmolStr::new(&s)) != t {
        return Err("try_new depends on how the text is given".to_owned());
      }
      if panics(|| str_util::Name::new(s.as_str())) != s.is_empty() {
        return Err("new panics wrongly".to_owned());
      }
      if let Some(t) = t {
        let b: &str = t.borrow();
        if t.as_str() != s || b != s || t.to_string() != s || str_util::Name::new(s.as_str()) != t || t.clone() != t {
          return Err(format!("the name is {t:?}: as_str {:?}, borrow {b:?}, display {:?}", t.as_str(), t.to_string()));
        }
      }
      Ok(())
    });
  }
}

// ---------------------------------------------------------------- U05

fn num(rng: &mut Rng) -> u32 {
  interesting(rng) as u32
}

fn u05(run: &mut Run) {
  use diagnostic::{Code, Diagnostic, Severity};
  use text_pos::{PositionUtf16, RangeUtf16};
  let mut n: u32 = 0;
  while run.more() {
    if n <= 65535 {
      let c = n as u16;
      n += 1;
      run.case(format!("code {c}"), true, || {
        let code = Code::n(c);
        let s = code.to_string();
        if s != c.to_string() || format!("{code:#}") != s {
          return Err(format!("displays as {s:?}"));
        }
        if code.as_i32() != i32::from(c) {
          return Err(format!("as_i32 is {}", code.as_i32()));
        }
        match Code::from_str(&s) {
          Ok(d) if d == code => Ok(()),
          r => Err(format!("{s:?} parses as {r:?}")),
        }
      });
    }
    let s = match run.rng.below(6) {
      5 => {
        // a number with something printable before, inside or after it
        let mut t = run.rng.below(70_000).to_string();
        let c = char::from((run.rng.below(127 - 9) + 9) as u8);
        let at = match run.rng.below(3) {
          0 => 0,
          1 => t.len(),
          _ => run.rng.below(t.len() + 1),
        };
        t.insert(at, c);
        if run.rng.chance(1, 4) {
          t.insert(at, c);
        }
        t
      }
      0 => text(&mut run.rng, 4),
      1 => format!("{}", interesting(&mut run.rng)),
      2 => format!("{}{}", run.rng.pick(&["+", "-", "0", "00000", " ", "0x", ""]), run.rng.below(70_000)),
      3 => format!("{}{}", run.rng.below(70_000), run.rng.pick(&["+", "-", "0", " ", "\n", ".0", "_"])),
      _ => String::new(),
    };
    run.case(format!("text {s:?}"), !s.is_empty(), || {
      let want = s.parse::<u16>();
      match (Code::from_str(&s), want) {
        (Ok(c), Ok(n)) if c == Code::n(n) => Ok(()),
        (Err(e), Err(w)) => {
          use std::error::Error as _;
          let src = e.source().map(ToString::to_string);
          if src != Some(w.to_string()) {
            return Err(format!("the error's source is {src:?}"));
          }
          if e.to_string() != format!("couldn't parse code: {w}") {
            return Err(format!("the error displays as {e}"));
          }
          Ok(())
        }
        (r, w) => Err(format!("from_str is {r:?}, the number is {w:?}")),
      }
    });
    let a = PositionUtf16 { line: num(&mut run.rng), col: num(&mut run.rng) };
    let mut b = PositionUtf16 { line: num(&mut run.rng), col: num(&mut run.rng) };
    if run.rng.chance(1, 2) {
      b.line = a.line;
    }
    if run.rng.chance(1, 8) {
      b = a;
    }
    let sev = *run.rng.pick(&[Severity::Warning, Severity::Error]);
    let max = run.rng.size(8);
    let m = text(&mut run.rng, max);
    run.case(format!("{a:?} to {b:?}, {sev:?}, {m:?}"), true, || {
      let one = |x: u32| u64::from(x) + 1;
      let pos = |p: PositionUtf16| format!("{}:{}", one(p.line), one(p.col));
      let end = if a.line == b.line { one(b.col).to_string() } else { pos(b) };
      let range = RangeUtf16 { start: a, end: b };
      let want_range = format!("{}-{}", pos(a), end);
      if range.to_string() != want_range || a.to_string() != pos(a) || format!("{range:#} {a:#}") != format!("{range} {a}") {
        return Err(format!("the range displays as {range}, its start as {a}"));
      }
      if RangeUtf16::zero(a) != (RangeUtf16 { start: a, end: a }) {
        return Err("RangeUtf16::zero".to_owned());
      }
      let word = match sev {
        Severity::Warning => "warning",
        Severity::Error => "error",
      };
      if sev.to_string() != word || format!("{sev:#}") != word || !(Severity::Warning < Severity::Error) {
        return Err(format!("the severity displays as {sev}"));
      }
      let d = Diagnostic { range, message: m.clone(), severity: sev };
      if d.to_string() != format!("{want_range}: {word}: {m}") || format!("{d:#}") != d.to_string() {
        return Err(format!("displays as {d}"));
      }
      Ok(())
    });
  }
}

// ---------------------------------------------------------------- U06

struct Logger(Mutex<Vec<String>>, Mutex<Vec<log::Level>>);
impl log::Log for Logger {
  fn enabled(&self, _: &log::Metadata<'_>) -> bool {
    true
  }
  fn log(&self, r: &log::Record<'_>) {
    let mut v = self.0.lock().unwrap();
    if v.len() < 100 {
      v.push(r.args().to_string());
      self.1.lock().unwrap().push(r.level());
    }
  }
  fn flush(&self) {}
}
static LOGGER: Logger = Logger(Mutex::new(Vec::new()), Mutex::new(Vec::new()));

/// `depth` timed calls, each in the one before.
fn nested(depth: usize, msg: &str, v: u64) -> u64 {
  if depth == 0 {
    v
  } else if depth % 3 == 2 {
    elapsed::time(|| nested(depth - 1, msg, v)).0.wrapping_add(1)
  } else {
    elapsed::log(msg, || nested(depth - 1, msg, v)).wrapping_add(1)
  }
}

/// nanoseconds of a duration as `Debug` writes it
fn nanos(s: &str) -> Option<f64> {
  [("ns", 1.0), ("µs", 1e3), ("ms", 1e6), ("s", 1e9)].iter().find_map(|(u, k)| Some(s.strip_suffix(u)?.parse::<f64>().ok()? * k))
}

fn u06(run: &mut Run) {
  let _ = log::set_logger(&LOGGER);
  let mut first = true;
  while run.more() {
    let on = run.rng.chance(1, 2);
    let max = *run.rng.pick(&[0, 10, 10, 100, 1000, 10_000]);
    let m = text(&mut run.rng, max);
    let m2 = m.clone();
    let v = run.rng.next();
    let boom = run.rng.chance(1, 6);
    let depth = run.rng.below(5) as usize;
    let long = if std::mem::take(&mut first) { 1_100 } else if run.rng.chance(1, 5000) { 1 + run.rng.below(20) as u64 } else { 0 };
    run.case(format!("message {m:?}, result {v}, logging {on}, panics {boom}, calls inside the call {depth}, sleeps {long} ms"), true, || {
      log::set_max_level(if on { log::LevelFilter::Trace } else { log::LevelFilter::Off });
      for which in ["time", "log"] {
        LOGGER.0.lock().unwrap().clear();
        LOGGER.1.lock().unwrap().clear();
        let mut calls = 0u32;
        let mut got = None;
        let (mut inner, mut took, before) = (Duration::ZERO, None, Instant::now());
        let p = panics(|| {
          let f = || {
            let start = Instant::now();
            calls += 1;
            if long > 0 {
              std::thread::sleep(Duration::from_millis(long));
            }
            assert_eq!(nested(depth, &m2, v), v.wrapping_add(depth as u64));
            assert!(!boom, "boom");
            inner = start.elapsed();
            (v, vec![v; 2])
          };
          got = Some(if which == "time" {
            let (r, d) = elapsed::time(f);
            took = Some(d);
            r
          } else {
            elapsed::log(&m2, f)
          });
        });
        let outer = before.elapsed();
        if calls != 1 {
          return Err(format!("{which} called the function {calls} times"));
        }
        if p != boom {
          return Err(format!("{which} panics: {p}"));
        }
        if !boom && got != Some((v, vec![v; 2])) {
          return Err(format!("{which} returned {got:?}"));
        }
        if let Some(d) = took.filter(|&d| d < inner || d > outer) {
          return Err(format!("time says {d:?} for a call in which {inner:?} and around which {outer:?} passed"));
        }
        let own = usize::from(which == "log" && !boom);
        let want = if on { (1..=depth).filter(|k| k % 3 != 2).count() + own } else { 0 };
        let (texts, levels) = (LOGGER.0.lock().unwrap(), LOGGER.1.lock().unwrap());
        if texts.len() != want || levels.iter().any(|&l| l != log::Level::Info) {
          return Err(format!("{which}: logged {texts:?} at {levels:?}, not {want} times at the Info level"));
        }
        for (k, t) in texts.iter().enumerate() {
          let Some(ns) = t.strip_prefix(&m2).and_then(|t| t.strip_prefix(": ")).and_then(nanos) else {
            return Err(format!("{which}: logged {t:?}"));
          };
          // the text is exact, its reading nearly so
          let least = if own == 1 && k + 1 == want { inner.as_nanos() as f64 } else { 0.0 };
          if ns > outer.as_nanos() as f64 * 1.000001 + 1.0 || ns < least * 0.999999 - 1.0 {
            return Err(format!("log says {t:?} for a call in which {inner:?} and around which {outer:?} passed"));
          }
        }
      }
      Ok(())
    });
  }
}

// ---------------------------------------------------------------- U07

/// what `always!` made of it: its value if it returned, what it panicked with, what was logged, evaluations of the
/// condition and of the argument
type Told = (Option<bool>, Option<String>, Vec<String>, u32, u32);
fn told(f: impl FnOnce(&mut u32, &mut u32) -> bool) -> Told {
  LOGGER.0.lock().unwrap().clear();
  let (mut conds, mut args) = (0, 0);
  let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(&mut conds, &mut args)));
  let (v, p) = match r {
    Ok(v) => (Some(v), None),
    Err(e) => (None, Some(replay_common::msg(&*e))),
  };
  (v, p, LOGGER.1.lock().unwrap().drain(..).zip(LOGGER.0.lock().unwrap().drain(..)).map(|(l, m)| format!("{l}: {m}")).collect(), conds, args)
}
fn u07(run: &mut Run) {
  let _ = log::set_logger(&LOGGER);
  let levels = [log::LevelFilter::Off, log::LevelFilter::Error, log::LevelFilter::Warn, log::LevelFilter::Trace];
  while run.more() {
    let b = run.rng.chance(1, 2);
    let level = *run.rng.pick(&levels);
    let max = run.rng.size(5);
    let m = text(&mut run.rng, max);
    let n = run.rng.next();
    run.case(format!("condition {b}, message {m:?} {n}, logging {level}"), !b, || {
      log::set_max_level(level);
      LOGGER.1.lock().unwrap().clear();
      let debug = cfg!(debug_assertions);
      let check = |what: &str, t: Told, msg: String| {
        let dies = debug && !b;
        let logged = if b || debug || level == log::LevelFilter::Off { vec![] } else { vec![format!("ERROR: {msg}")] };
        let want: (Option<bool>, Option<String>, Vec<String>) = (if dies { None } else { Some(b) }, if dies { Some(msg) } else { None }, logged);
        if (&t.0, &t.1, &t.2) != (&want.0, &want.1, &want.2) {
          return Err(format!("{what}: value, panic and log are {:?}, not {want:?}", (&t.0, &t.1, &t.2)));
        }
        if t.3 != 1 {
          return Err(format!("{what}: the condition was evaluated {} times", t.3));
        }
        Ok(())
      };
      let x = b;
      check("always!(x)", told(|c, _| { *c += 1; always::always!(x) }), "assertion failed: x".to_owned())?;
      check(
        "always!({ .. })",
        told(|c, _| always::always!({ *c += 1; x }, "counted")),
        "counted".to_owned(),
      )?;
      check("message with inline arguments", told(|c, _| always::always!({ *c += 1; x }, "{m} is {n:?}!")), format!("{m} is {n:?}!"))?;
      check("message with arguments", told(|c, _| always::always!({ *c += 1; x }, "{} {:>30} {{}}", m, n)), format!("{} {:>30} {{}}", m, n))?;
      check("message with named arguments", told(|c, _| always::always!({ *c += 1; x }, "{k}{0}", m, k = n,)), format!("{k}{0}", m, k = n,))?;
      // no precedence trouble
      check("always!(a || b)", told(|c, _| { *c += 1; always::always!(x || n == 0 && x) }), "assertion failed: x || n == 0 && x".to_owned())?;
      let mut hit = false;
      let p = panics(|| if !always::always!(!x, "no") { hit = true });
      if p != (debug && x) || hit != (!debug && x) {
        return Err("always! in a condition".to_owned());
      }
      Ok(())
    });
  }
}

// ---------------------------------------------------------------- X07

/// Takes `room` more characters, then fails; once it has failed it must not be written to.
struct W {
  out: String,
  room: usize,
  failed: bool,
  after: bool,
}
impl Write for W {
  fn write_str(&mut self, s: &str) -> fmt::Result {
    if self.failed {
      self.after = true;
      return Err(fmt::Error);
    }
    for c in s.chars() {
      if self.room == 0 {
        self.failed = true;
        return Err(fmt::Error);
      }
      self.room -= 1;
      self.out.push(c);
    }
    Ok(())
  }
}

#[derive(Debug, Clone)]
struct Item {
  text: String,
  fails: bool,
}
impl Display for Item {
  fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
    f.write_str(&self.text)?;
    if self.fails { Err(fmt::Error) } else { Ok(()) }
  }
}

/// knows nothing about how many items are left, or only a bound
struct Vague<'a>(std::slice::Iter<'a, Item>, Option<usize>);
impl<'a> Iterator for Vague<'a> {
  type Item = &'a Item;
  fn next(&mut self) -> Option<&'a Item> {
    self.0.next()
  }
  fn size_hint(&self) -> (usize, Option<usize>) {
    (0, self.1.map(|extra| self.0.len() + extra))
  }
}

struct Seq<'a>(&'a [Item], Option<&'a str>, usize);
impl Display for Seq<'_> {
  fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
    // an iterator that knows its size, and one that does not
    match (self.1, self.2) {
      (Some(sep), 0) => fmt_util::sep_seq(f, sep, self.0.iter()),
      (Some(sep), 1) => fmt_util::sep_seq(f, sep, self.0.iter().filter(|_| true).cloned()),
      (Some(sep), 2) => fmt_util::sep_seq(f, sep, Vague(self.0.iter(), None)),
      (Some(sep), n) => fmt_util::sep_seq(f, sep, Vague(self.0.iter(), Some(n - 3))),
      (None, 0) => fmt_util::comma_seq(f, self.0.iter()),
      (None, 1) => fmt_util::comma_seq(f, self.0.iter().filter(|_| true).cloned()),
      (None, 2) => fmt_util::comma_seq(f, Vague(self.0.iter(), None)),
      (None, n) => fmt_util::comma_seq(f, Vague(self.0.iter(), Some(n - 3))),
    }
  }
}

impl fmt::Debug for Seq<'_> {
  fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
    Display::fmt(self, f)
  }
}

fn x07(run: &mut Run) {
  while run.more() {
    let n = run.rng.size(6);
    let items: Vec<Item> =
      (0..n).map(|_| {
        let max = run.rng.size(3);
        Item { text: text(&mut run.rng, max), fails: run.rng.chance(1, n.max(25)) }
      }).collect();
    let max = run.rng.size(3);
    let sep = if run.rng.chance(1, 3) { None } else { Some(text(&mut run.rng, max)) };
    let mode = run.rng.below(6);
    let total: usize = items.iter().map(|i| i.text.chars().count() + 4).sum();
    let room = if run.rng.chance(1, 2) { usize::MAX } else { run.rng.below(total + 2) };
    let style = run.rng.below(8);
    let how = ["{}", "{}", "{}", "{}", "{}", "{:#}", "{:+}", "{:#?}"][style];
    let desc = format!("{:?} separated by {sep:?} (kind of iterator: {mode}), a writer with room for {room}, formatted with {how}",
      items.iter().map(|i| (i.text.as_str(), i.fails)).collect::<Vec<_>>());
    run.case(desc, items.len() > 1, || {
      // `fails`: the item writes its text and then reports an error
      let mut want = String::new();
      let mut ok = true;
      for (i, x) in items.iter().enumerate() {
        if i > 0 {
          want.push_str(sep.as_deref().unwrap_or(", "));
        }
        want.push_str(&x.text);
        if x.fails {
          ok = false;
          break;
        }
      }
      if want.chars().count() > room {
        ok = false;
        want = want.chars().take(room).collect();
      }
      let mut w = W { out: String::new(), room, failed: false, after: false };
      let seq = Seq(&items, sep.as_deref(), mode);
      // the flags of the formatter are the items' own business
      let r = match style {
        5 => write!(w, "{seq:#}"),
        6 => write!(w, "{seq:+}"),
        7 => write!(w, "{seq:#?}"),
        _ => write!(w, "{seq}"),
      };
      if r.is_ok() != ok {
        return Err(format!("returned {r:?}"));
      }
      if w.after {
        return Err("wrote on after the writer failed".to_owned());
      }
      if w.out != want {
        return Err(format!("wrote {:?}, not {want:?}", w.out));
      }
      Ok(())
    });
  }
}

fn main() {
  run_main(&[
    ("U01", "runs of mk calls on one maker, one of them as long as the time allows (all 2^32 - 1 in the release build); nontrivial: more than one call", u01),
    ("U02", "pairs of 64-bit numbers around powers of two; nontrivial: all", u02),
    ("U03", "texts up to 4000 characters, given as &str, String and SmolStr; nontrivial: more than one byte", u03),
    ("U05", "all 65536 codes, number-like texts, diagnostics with positions up to u32::MAX; nontrivial: not empty", u05),
    ("U06", "closures that count their calls, with and without logging, returning or panicking; nontrivial: all", u06),
    ("U07", "true and false conditions that count their evaluations, messages of all forms, log levels; nontrivial: false", u07),
    ("X07", "lists of up to 600 items, items and writers that fail; nontrivial: more than one item", x07),
  ]);
}
