//! Oracles for identifier-case, str-process, code-h2-md-map and char-name.

use replay_common::{main as run_main, panics, Rng, Run};
use std::collections::{BTreeMap, BTreeSet};

fn text(rng: &mut Rng, cs: &[char], max: usize) -> String {
  rng.text(cs, max)
}

// ---------------------------------------------------------------- X03

const BYTES: &[char] = &['a', 'a', 'b', '"', '\n', '\0', 'é', 'ß', '語', '😀', '\u{301}', '\u{7f}', '\u{80}', '\u{7ff}', '\u{800}', '\u{ffff}', '\u{10ffff}'];

fn x03(run: &mut Run) {
  while run.more() {
    let (len, n) = (run.rng.size(12), run.rng.size(13));
    let s = text(&mut run.rng, BYTES, len);
    let ops: Vec<(usize, u64)> = (0..n).map(|_| (run.rng.below(10), run.rng.next())).collect();
    run.case(format!("{s:?}, operations {ops:?}"), !s.is_empty() && n > 2, || x03_case(&s, &ops));
  }
}

fn x03_case(s: &str, ops: &[(usize, u64)]) -> Result<(), String> {
  let b = s.as_bytes();
  let mut st = str_process::St::new(s);
  let mut at = 0usize;
  // marks are handed back in some order; each exactly once
  let mut marks: Vec<(str_process::Marker, usize)> = Vec::new();
  let check = |st: &str_process::St<'_>, at: usize, after: &str| {
    if st.cur_idx() != at || st.cur() != b.get(at).copied() {
      return Err(format!("after {after} the index is {} and the byte {:?}, not {at} and {:?}", st.cur_idx(), st.cur(), b.get(at)));
    }
    Ok(())
  };
  let mut err = check(&st, at, "new");
  for &(op, x) in ops {
    if err.is_err() {
      break;
    }
    let x = x as usize;
    err = match op {
      0 => {
        st.bump();
        at += 1;
        check(&st, at, "bump")
      }
      1 => {
        let stop = (x % 5) as u8;
        let cond = |c: u8| c % 5 != stop;
        st.bump_while(cond);
        while at < b.len() && cond(b[at]) {
          at += 1;
        }
        check(&st, at, "bump_while")
      }
      2 => {
        let lo = at.min(b.len());
        let hi = (lo + if x % 64 == 7 { x / 64 % 80 } else { x % 4 }).min(b.len());
        let mut p = b[lo..hi].to_vec();
        match (x / 4) % 4 {
          0 => p.push(b'a'),
          1 if !p.is_empty() => {
            let n = p.len() - 1;
            p[n] ^= 1;
          }
          _ => {}
        }
        let want = at + p.len() <= b.len() && b[at..at + p.len()] == p[..];
        let got = st.eat_prefix(&p);
        if want {
          at += p.len();
        }
        if got != want { Err(format!("eat_prefix({p:?}) returned {got}")) } else { check(&st, at, "eat_prefix") }
      }
      3 if at < b.len() => {
        st.next_str();
        at += 1;
        while !s.is_char_boundary(at) {
          at += 1;
        }
        check(&st, at, "next_str")
      }
      4 | 5 => {
        marks.push((st.mark(), at));
        check(&st, at, "mark")
      }
      6 | 7 | 8 if !marks.is_empty() => {
        let (m, from) = marks.remove(x % marks.len());
        if op == 6 {
          let got = st.did_bump_since(m);
          if got != (at > from) { Err(format!("did_bump_since({from}) at {at} is {got}")) } else { check(&st, at, "did_bump_since") }
        } else if at <= b.len() {
          let want = &b[from..at];
          if op == 7 {
            let got = st.since(m);
            if got != want { Err(format!("since({from}) at {at} is {got:?}")) } else { check(&st, at, "since") }
          } else {
            let mut got = None;
            let p = panics(|| got = Some(st.non_empty_since(m)));
            if p != want.is_empty() || (!p && got != Some(want)) {
              Err(format!("non_empty_since({from}) at {at} is {got:?} (panics: {p})"))
            } else {
              check(&st, at, "non_empty_since")
            }
          }
        } else {
          let _ = st.did_bump_since(m);
          Ok(())
        }
      }
      _ => Ok(()),
    };
  }
  for (m, _) in marks {
    let _ = st.did_bump_since(m);
  }
  err
}

// ---------------------------------------------------------------- X04

const IDENT: &[char] = &['a', 'b', 'z', 'A', 'M', 'Z', '_', '_', '0', '9', '-', '`', '{', '@', '[', 'é', 'É', 'ß', '語', 'ǆ', 'İ'];

fn x04(run: &mut Run) {
  while run.more() {
    let max = if run.rng.chance(1, 10) { 60 } else { run.rng.size(7) };
    let s = if run.rng.chance(1, 2) {
      text(&mut run.rng, IDENT, max)
    } else {
      let cs: &[char] = &['a', 'b', 'z', '0', '_'];
      text(&mut run.rng, cs, max)
    };
    run.case(format!("{s:?}"), s.len() > 2, || {
      let mut pas = String::new();
      for w in s.split('_') {
        for (i, c) in w.chars().enumerate() {
          let d = if i == 0 { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() };
          pas.push(d);
        }
      }
      let mut snk = String::new();
      for (i, c) in s.chars().enumerate() {
        if i > 0 && ('A'..='Z').contains(&c) {
          snk.push('_');
        }
        snk.push(c.to_ascii_lowercase());
      }
      let (p, k) = (identifier_case::snake_to_pascal(&s), identifier_case::pascal_to_snake(&s));
      if p != pas {
        return Err(format!("snake_to_pascal gives {p:?}, not {pas:?}"));
      }
      if k != snk {
        return Err(format!("pascal_to_snake gives {k:?}, not {snk:?}"));
      }
      let words = !s.is_empty()
        && s.split('_').all(|w| w.starts_with(|c: char| c.is_ascii_lowercase()) && !w.contains(|c: char| c.is_ascii_uppercase()));
      if words && identifier_case::pascal_to_snake(&p) != s {
        return Err(format!("round trip gives {:?}", identifier_case::pascal_to_snake(&p)));
      }
      Ok(())
    });
  }
}

// ---------------------------------------------------------------- X05

fn x05(run: &mut Run) {
  const LINES: &[&str] = &["## `a`", "## `b`", "## `c d`", "## `` ` ``", "## ```", "## `` ` ` ` ``", "## `", "##`a`", " ## `a`", "## `a` ", "### `a`", "# `a`", "## a",
    "", "text", "`", "## ``", "## `x``", "## `é`", "\t", "## `a`b`", "## ` ` ` `", "## `` ` `` `"];
  const MD: &[char] = &['a', 'k', ' ', '`', '#', '\t', '\r', 'é', '😀', '\u{a0}', '\\', '*'];
  while run.more() {
    let n = run.rng.size(8);
    let mut md = String::new();
    for i in 0..n {
      let l = *run.rng.pick(LINES);
      let l = match run.rng.below(if n > 10 { 4 } else { 14 }) {
        0 => format!("## `k{i}`"),
        1 => format!("## `{}`", text(&mut run.rng, MD, 6)),
        2 => text(&mut run.rng, MD, 12),
        _ if n > 10 => "text ## `a`".to_owned(),
        _ => l.to_owned(),
      };
      md.push_str(&l);
      match run.rng.below(12) {
        0 => md.push_str("\r\n"),
        1 => md.push_str("\n\n"),
        2 if i + 1 == n => {}
        3 => md.push_str("\r\r\n"),
        _ => md.push('\n'),
      }
    }
    run.case(format!("{md:?}"), md.matches("## `").count() > 1, || x05_case(&md));
  }
}

/// lines as the standard library documents them
fn lines(s: &str) -> Vec<&str> {
  let mut v: Vec<&str> = s.split('\n').collect();
  let last = v.pop();
  v.iter_mut().for_each(|l| *l = l.strip_suffix('\r').unwrap_or(l));
  if let Some(l) = last {
    if !l.is_empty() {
      v.push(l);
    }
  }
  v
}

fn x05_case(md: &str) -> Result<(), String> {
  let mut want: BTreeMap<String, String> = BTreeMap::new();
  let mut calls: Vec<String> = Vec::new();
  let mut dup = false;
  let mut cur: Option<String> = None;
  for l in lines(md) {
    if l.len() >= 5 && l.starts_with("## `") && l.ends_with('`') {
      let k = &l[4..l.len() - 1];
      let k = if k == "` ` `" { "`" } else { k };
      dup |= want.contains_key(k);
      if dup {
        break;
      }
      calls.push(k.to_owned());
      want.insert(k.to_owned(), format!("<{k} {}>", calls.len()));
      cur = Some(k.to_owned());
    } else if let Some(k) = &cur {
      let v = want.get_mut(k).unwrap();
      v.push('\n');
      v.push_str(l);
    }
  }
  let mut got_calls: Vec<String> = Vec::new();
  let mut got: BTreeMap<String, String> = BTreeMap::new();
  let p = panics(|| {
    let m = code_h2_md_map::get(md, |k| {
      got_calls.push(k.to_owned());
      format!("<{k} {}>", got_calls.len())
    });
    got = m.into_iter().map(|(k, v)| (k.to_owned(), v)).collect();
  });
  if p != dup {
    return Err(format!("panics: {p}"));
  }
  if dup {
    return Ok(());
  }
  if got != want {
    return Err(format!("gave {got:?}, not {want:?}"));
  }
  if got_calls != calls {
    return Err(format!("called back for {got_calls:?}, not {calls:?}"));
  }
  Ok(())
}

// ---------------------------------------------------------------- X06

/// Sardinas-Patterson: two different sequences of words with the same concatenation, if there are any
fn ambiguous(words: &[String]) -> Option<(Vec<String>, Vec<String>)> {
  // a state: the longer side is ahead by `rest`; the two sequences so far
  let mut todo: Vec<(String, Vec<String>, Vec<String>)> = Vec::new();
  let mut seen: BTreeSet<String> = BTreeSet::new();
  for a in words {
    for b in words {
      if a != b {
        if let Some(r) = a.strip_prefix(b.as_str()) {
          todo.push((r.to_owned(), vec![a.clone()], vec![b.clone()]));
        }
      }
    }
  }
  while let Some((rest, long, short)) = todo.pop() {
    if rest.is_empty() {
      return Some((long, short));
    }
    if !seen.insert(rest.clone()) {
      continue;
    }
    for w in words {
      let mut s = short.clone();
      s.push(w.clone());
      if let Some(r) = rest.strip_prefix(w.as_str()) {
        todo.push((r.to_owned(), long.clone(), s));
      } else if let Some(r) = w.strip_prefix(rest.as_str()) {
        todo.push((r.to_owned(), s, long.clone()));
      }
    }
  }
  None
}

fn x06(run: &mut Run) {
  let mut names: Vec<(char, String)> = Vec::new();
  for c in '\0'..=char::MAX {
    if !run.more() {
      return;
    }
    let should = c.is_ascii_punctuation() && !['"', '\'', '\\'].contains(&c);
    let mut n = None;
    if c.is_ascii() || char_name::get_opt(c).is_some() || c as u32 % 4096 == 0 {
      run.case(format!("{c:?}"), should, || {
        n = char_name::get_opt(c).map(str::to_owned);
        if n.is_some() != should {
          return Err(format!("get_opt gives {n:?}"));
        }
        let mut g = None;
        let p = panics(|| g = Some(char_name::get(c).to_owned()));
        if p == should || g != n {
          return Err(format!("get gives {g:?} (panics: {p}), get_opt {n:?}"));
        }
        if let Some(n) = &n {
          if !n.starts_with(|c: char| c.is_ascii_uppercase()) || !n.chars().all(|c| c.is_ascii_alphabetic()) {
            return Err(format!("the name is {n:?}"));
          }
        }
        Ok(())
      });
    }
    if let Some(n) = n {
      names.push((c, n));
    }
  }
  run.case("all names together".to_owned(), true, || {
    let set: BTreeSet<&String> = names.iter().map(|(_, n)| n).collect();
    if set.len() != names.len() {
      return Err(format!("two characters share a name: {names:?}"));
    }
    let words: Vec<String> = names.iter().map(|(_, n)| n.clone()).collect();
    match ambiguous(&words) {
      Some((a, b)) => Err(format!("the names {a:?} and {b:?} concatenate to the same text")),
      None => Ok(()),
    }
  });
}

fn main() {
  run_main(&[
    ("X03", "strings of mostly up to 12 1 to 4 byte characters and mostly up to 13 cursor operations; nontrivial: non-empty string, more than two operations", x03),
    ("X04", "identifiers mostly up to 60 characters with ASCII and other letters; nontrivial: more than two bytes", x04),
    ("X05", "markdown texts of mostly up to 8 lines, headings and near-headings, LF and CRLF; nontrivial: more than one heading-like line", x05),
    ("X06", "every character, and all names together (Sardinas-Patterson); nontrivial: named characters", x06),
  ]);
}
