//! Oracles for text-pos and apply-changes.

use apply_changes::Change;
use replay_common::{main as run_main, Rng, Run};
use text_pos::{PositionDb, PositionUtf16, RangeUtf16};
use text_size_util::TextRange;

const CS: &[char] = &['a', 'b', '\n', '\n', '\r', 'é', '語', '😀'];
const WIDE: &[char] = &['a', '\n', '\u{7f}', '\u{80}', '\u{7ff}', '\u{800}', '\u{ffff}', '\u{10000}', '\u{10ffff}', '\r', '語', '😀'];

fn text(rng: &mut Rng, cs: &[char], max: usize) -> String {
  rng.text(cs, max)
}

fn long(rng: &mut Rng) -> String {
  // runs of ASCII longer than the vectors that line-index scans with
  let n = rng.below(8);
  (0..n)
    .map(|_| match rng.below(4) {
      0 => "x".repeat(rng.below(40)),
      1 => "\n".to_owned(),
      _ => text(rng, WIDE, 4),
    })
    .collect()
}

/// the character boundaries: offset, line, UTF-16 column
fn table(s: &str) -> Vec<(u32, u32, u32)> {
  let mut out = Vec::new();
  let (mut line, mut col) = (0, 0);
  for (i, c) in s.char_indices() {
    out.push((i as u32, line, col));
    if c == '\n' {
      line += 1;
      col = 0;
    } else {
      col += c.len_utf16() as u32;
    }
  }
  out.push((s.len() as u32, line, col));
  out
}

fn p(line: u32, col: u32) -> PositionUtf16 {
  PositionUtf16 { line, col }
}

/// offset of a position
fn find(t: &[(u32, u32, u32)], q: PositionUtf16) -> Option<u32> {
  t.iter().find(|x| (x.1, x.2) == (q.line, q.col)).map(|x| x.0)
}

fn x01(run: &mut Run) {
  // all texts of up to 3 characters first
  let mut all = vec![String::new()];
  for _ in 0..3 {
    let mut next = all.clone();
    for s in &all {
      for c in ['a', '\n', 'é', '語', '😀', '\r'] {
        next.push(format!("{s}{c}"));
      }
    }
    next.sort();
    next.dedup();
    all = next;
  }
  for s in all {
    run.case(format!("{s:?}"), s.chars().count() > 1, || x01_case(&s));
  }
  for n in 0..6 {
    // offsets, columns and lines of more than 16 bits
    let (s, what) = match n {
      0 => ("aé😀語".repeat(30_000), "a long line of 1 to 4 byte characters"),
      1 => ("\n".repeat(70_000), "many lines"),
      2 => ("x".repeat(70_000) + "\n" + &"é".repeat(70_000), "two long lines"),
      3 => ("x".repeat(70_000) + "é\n😀x", "a wide character far away"),
      _ => (big(&mut run.rng, 40_000), "a long random text"),
    };
    let mut rng = run.rng.clone();
    run.case(format!("{what}, {} bytes", s.len()), true, || x01_sampled(&s, &mut rng));
  }
  while run.more() {
    let s = if run.rng.chance(1, 2) { text(&mut run.rng, WIDE, 12) } else { long(&mut run.rng) };
    run.case(format!("{s:?}"), s.contains('\n') && !s.is_ascii(), || x01_case(&s));
    if run.rng.chance(1, 40) {
      let s = big(&mut run.rng, 400);
      let mut rng = run.rng.clone();
      run.case(format!("{s:?}"), true, || x01_sampled(&s, &mut rng));
    }
  }
}

fn big(rng: &mut Rng, n: usize) -> String {
  let n = 20 + rng.below(n);
  let mut s = String::new();
  for _ in 0..n {
    match rng.below(5) {
      0 => s.extend(std::iter::repeat('x').take(rng.below(20))),
      1 => s.push('\n'),
      2 => s.push_str("\r\n"),
      _ => s.push(*rng.pick(WIDE)),
    }
  }
  s
}

/// as `x01_case`, for some of the offsets and positions
fn x01_sampled(s: &str, rng: &mut Rng) -> Result<(), String> {
  let db = PositionDb::new(s);
  let t = table(s);
  let by_offset: std::collections::BTreeMap<u32, PositionUtf16> = t.iter().map(|x| (x.0, p(x.1, x.2))).collect();
  let by_pos: std::collections::BTreeMap<PositionUtf16, u32> = t.iter().map(|x| (p(x.1, x.2), x.0)).collect();
  let n = s.len() as u32;
  if db.len() != n.into() || Some(&db.end_position_utf16()) != by_offset.get(&n) {
    return Err(format!("len is {:?}, the end {:?}", db.len(), db.end_position_utf16()));
  }
  let mut prev = (0, p(0, 0));
  for i in 0..600 {
    let x = if i == 0 { *t.last().unwrap() } else { *rng.pick(&t) };
    let o = x.0 + rng.below(3) as u32;
    let want = by_offset.get(&o).copied();
    if db.position_utf16(o.into()) != want {
      return Err(format!("position_utf16({o}) is {:?}, not {want:?}", db.position_utf16(o.into())));
    }
    let q = p(x.1 + (rng.below(20) / 19) as u32, x.2 + rng.below(3) as u32);
    let want = by_pos.get(&q).copied();
    let got = db.text_size_utf16(q).map(u32::from);
    if got != want {
      return Err(format!("text_size_utf16({q:?}) is {got:?}, not {want:?}"));
    }
    let (a, b) = if prev.1 <= q { (prev.1, q) } else { (q, prev.1) };
    let want = by_pos.get(&a).copied().zip(by_pos.get(&b).copied());
    let got = db.text_range_utf16(RangeUtf16 { start: a, end: b }).map(|r| (u32::from(r.start()), u32::from(r.end())));
    if got != want {
      return Err(format!("text_range_utf16({a:?} to {b:?}) is {got:?}, not {want:?}"));
    }
    let (c, d) = if prev.0 <= o { (prev.0, o) } else { (o, prev.0) };
    let want = by_offset.get(&c).zip(by_offset.get(&d)).map(|(&start, &end)| RangeUtf16 { start, end });
    let got = db.range_utf16(TextRange::new(c.into(), d.into()));
    if got != want {
      return Err(format!("range_utf16({c}..{d}) is {got:?}, not {want:?}"));
    }
    prev = (o, q);
  }
  Ok(())
}

fn x01_case(s: &str) -> Result<(), String> {
  let db = PositionDb::new(s);
  let t = table(s);
  if u32::from(db.len()) != s.len() as u32 {
    return Err(format!("len is {:?}", db.len()));
  }
  let last = t.last().unwrap();
  if db.end_position_utf16() != p(last.1, last.2) {
    return Err(format!("the end is {:?}, not {}:{}", db.end_position_utf16(), last.1, last.2));
  }
  let n = s.len() as u32;
  let mut offsets: Vec<u32> = (0..n + 3).collect();
  offsets.extend([u32::MAX, u32::MAX - 1, 1 << 31]);
  for &o in &offsets {
    let want = t.iter().find(|x| x.0 == o).map(|x| p(x.1, x.2));
    let got = db.position_utf16(o.into());
    if got != want {
      return Err(format!("position_utf16({o}) is {got:?}, not {want:?}"));
    }
  }
  let lines = last.1;
  let cols = t.iter().map(|x| x.2).max().unwrap();
  let mut ps = Vec::new();
  for l in (0..lines + 3).chain([u32::MAX]) {
    for c in (0..cols + 4).chain([n, n + 1, u32::MAX - n, u32::MAX - 1, u32::MAX]) {
      ps.push(p(l, c));
    }
  }
  for &q in &ps {
    let want = find(&t, q);
    let got = db.text_size_utf16(q).map(u32::from);
    if got != want {
      return Err(format!("text_size_utf16({q:?}) is {got:?}, not {want:?}"));
    }
  }
  for (k, &a) in ps.iter().enumerate().step_by(1 + ps.len() / 24) {
    for &b in ps[k..].iter().step_by(1 + ps.len() / 24) {
      let (a, b) = if a <= b { (a, b) } else { (b, a) };
      let want = match (find(&t, a), find(&t, b)) {
        (Some(x), Some(y)) => Some((x, y)),
        _ => None,
      };
      let got = db.text_range_utf16(RangeUtf16 { start: a, end: b }).map(|r| (u32::from(r.start()), u32::from(r.end())));
      if got != want {
        return Err(format!("text_range_utf16({a:?} to {b:?}) is {got:?}, not {want:?}"));
      }
    }
  }
  for (k, &a) in offsets.iter().enumerate().step_by(1 + offsets.len() / 24) {
    for &b in offsets[k..].iter().step_by(1 + offsets.len() / 24) {
      if a > b {
        continue;
      }
      let pos = |o: u32| t.iter().find(|x| x.0 == o).map(|x| p(x.1, x.2));
      let want = match (pos(a), pos(b)) {
        (Some(start), Some(end)) => Some(RangeUtf16 { start, end }),
        _ => None,
      };
      let got = db.range_utf16(TextRange::new(a.into(), b.into()));
      if got != want {
        return Err(format!("range_utf16({a}..{b}) is {got:?}, not {want:?}"));
      }
    }
  }
  if let Some(&q) = ps.first() {
    let z = RangeUtf16::zero(q);
    if z.start != q || z.end != q {
      return Err("zero is not the range of its position".to_owned());
    }
  }
  Ok(())
}

type Edit = (Option<(PositionUtf16, PositionUtf16)>, String);

/// a position of the text, or near one
fn position(rng: &mut Rng, s: &str) -> PositionUtf16 {
  let t = table(s);
  let x = rng.pick(&t);
  match rng.below(12) {
    0 => p(x.1, x.2 + 1),
    1 => p(x.1 + 1, x.2),
    2 => p(x.1, u32::MAX),
    3 if rng.chance(1, 4) => p(u32::MAX, 0),
    _ => p(x.1, x.2),
  }
}

fn apply(s: &str, e: &Edit) -> String {
  match &e.0 {
    None => e.1.clone(),
    Some((a, b)) => {
      let t = table(s);
      match (find(&t, *a), find(&t, *b)) {
        (Some(i), Some(j)) => format!("{}{}{}", &s[..i as usize], e.1, &s[j as usize..]),
        _ => s.to_owned(),
      }
    }
  }
}

fn x02(run: &mut Run) {
  while run.more() {
    let (len, n) = (run.rng.size(16), 1 + run.rng.size(5));
    let start = text(&mut run.rng, CS, len);
    let reverse = run.rng.chance(1, 3);
    let mut edits: Vec<Edit> = Vec::new();
    let mut cur = start.clone();
    let mut before = None;
    for _ in 0..n {
      let len = run.rng.size(4);
      let with = text(&mut run.rng, CS, len);
      let range = if run.rng.chance(1, 12) {
        None
      } else {
        let (mut a, mut b) = (position(&mut run.rng, &cur), position(&mut run.rng, &cur));
        if a > b {
          std::mem::swap(&mut a, &mut b);
        }
        // editors sort the changes from the end to the start
        if let (true, Some(m)) = (reverse, before) {
          if b > m {
            b = m;
          }
          if a > b {
            a = b;
          }
        }
        before = Some(a);
        Some((a, b))
      };
      let e = (range, with);
      cur = apply(&cur, &e);
      edits.push(e);
    }
    run.case(format!("{start:?}, changes {edits:?}"), n > 2 && start.contains('\n'), || {
      let mut got = start.clone();
      let changes = edits
        .iter()
        .map(|e| Change { range: e.0.map(|(start, end)| RangeUtf16 { start, end }), text: e.1.clone() })
        .collect();
      apply_changes::get(&mut got, changes);
      if got == cur {
        Ok(())
      } else {
        Err(format!("the text is {got:?}, not {cur:?}"))
      }
    });
  }
}

fn x08_case(s: &str, range: TextRange) -> Result<(), String> {
  let db = PositionDb::new(s);
  let (lo, hi) = (u32::from(range.start()), u32::from(range.end()));
  let mut want: Vec<(u32, u32)> = Vec::new();
  let mut from = lo;
  for (i, b) in s.bytes().enumerate() {
    let at = i as u32 + 1;
    if b == b'\n' && lo < at && at < hi {
      want.push((from, at));
      from = at;
    }
  }
  if lo < hi {
    want.push((from, hi));
  }
  let got: Vec<(u32, u32)> = db.lines(range).map(|r| (r.start().into(), r.end().into())).collect();
  if got == want {
    Ok(())
  } else {
    let k = got.iter().zip(&want).take_while(|(x, y)| x == y).count();
    Err(format!("of {lo}..{hi}: the range at {k} is {:?}, not {:?}", got.get(k), want.get(k)))
  }
}

fn x08(run: &mut Run) {
  let r = |a: u32, b: u32| TextRange::new(a.min(b).into(), a.max(b).into());
  // all ranges in all texts of up to 5 characters
  let mut all = vec![String::new()];
  for _ in 0..5 {
    let mut next = all.clone();
    for s in &all {
      for c in ['a', '\n', 'é'] {
        next.push(format!("{s}{c}"));
      }
    }
    next.sort();
    next.dedup();
    all = next;
  }
  for s in all {
    run.case(format!("all ranges in {s:?}"), s.chars().count() > 1, || {
      let n = s.len() as u32 + 2;
      (0..n).try_for_each(|a| (a..n).try_for_each(|b| x08_case(&s, r(a, b))))
    });
  }
  for n in [255, 256, 257, 65_535, 65_536, 65_537, 100_000] {
    run.case(format!("{n} lines"), true, || {
      let s = "\n".repeat(n) + "x";
      let m = n as u32;
      [r(0, m), r(0, m + 1), r(1, m + 9), r(m - 1, m), r(m / 2, m), r(m - 3, m + 1)].into_iter().try_for_each(|q| x08_case(&s, q))
    });
  }
  while run.more() {
    let s = if run.rng.chance(1, 4) { long(&mut run.rng) } else { let cs = if run.rng.chance(1, 2) { CS } else { WIDE }; text(&mut run.rng, cs, 24) };
    let n = s.len() + 3;
    let mark = |rng: &mut Rng| match rng.below(12) {
      0 => u32::MAX,
      1 => u32::MAX - 1,
      2 => s.len() as u32,
      _ => rng.below(n) as u32,
    };
    let (a, b) = (mark(&mut run.rng), mark(&mut run.rng));
    run.case(format!("{s:?}, {}..{}", a.min(b), a.max(b)), s.contains('\n') && a != b, || x08_case(&s, r(a, b)));
  }
}

fn main() {
  run_main(&[
    ("X08", "all ranges in and just beyond all texts of up to 5 of 3 characters, up to 100000 lines, and texts of mostly up to 24 characters with ranges in and beyond them; nontrivial: a line ends in the text and the range is not empty", x08),
    ("X01", "all texts of up to 3 of 6 characters, and texts with 1 to 4 byte characters and long ASCII runs; all offsets and positions in and around them, and some of those of texts of up to 300000 bytes; nontrivial: several lines and non-ASCII", x01),
    ("X02", "texts of mostly up to 16 characters and up to 6 changes, in any order or from the end to the start, valid and invalid ranges; nontrivial: more than two changes to a text of several lines", x02),
  ]);
}
