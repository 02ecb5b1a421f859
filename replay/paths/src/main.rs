//! Oracles for the paths crate (Unix paths).

use paths::{CleanPath, CleanPathBuf, FileSystem, MemoryFileSystem, PathId, RealFileSystem, Store};
use replay_common::{main as run_main, Rng, Run};
use std::collections::{BTreeMap, HashSet};
use std::ffi::OsString;
use std::os::unix::ffi::{OsStrExt as _, OsStringExt as _};
use std::path::{Path, PathBuf};

const NAMES: &[&str] = &["a", "b", "..", ".", "", "é", "...", "a.b", " ", "..a", "a..", "-"];
const MORE: &[&str] = &["..", "..", ".", "", ".a", ". ", "~", "a\\b", "C:", "e\u{301}", "\n", "A", "$HOME", "%2e%2e", "....", "\u{e000}", "\u{e001}", "a\u{e000}", "..\u{e001}", "a:b", "*", "\u{fffd}",
  "a name that is longer than what a small string holds, and then some more"];

/// Two private characters stand for the bytes 0xff and 0xfe, which are no text.
fn os(s: &str) -> OsString {
  let mut v = Vec::new();
  for c in s.chars() {
    match c {
      '\u{e000}' => v.push(0xff),
      '\u{e001}' => v.push(0xfe),
      c => v.extend(c.to_string().bytes()),
    }
  }
  OsString::from_vec(v)
}

fn rel(rng: &mut Rng) -> String {
  let n = rng.size(5);
  let more = rng.chance(1, 3);
  (0..n).map(|_| if more { *rng.pick(MORE) } else { *rng.pick(NAMES) }).collect::<Vec<_>>().join("/")
}

fn any(rng: &mut Rng) -> String {
  let mut s = String::new();
  for _ in 0..rng.below(3) {
    s.push('/');
  }
  s + &rel(rng) + if rng.chance(1, 4) { "/" } else { "" }
}

fn abs(rng: &mut Rng) -> String {
  "/".to_owned() + &any(rng)
}

/// a clean path as text
fn clean_text(rng: &mut Rng, names: &[&str]) -> String {
  let n = if rng.chance(1, 40) { rng.below(40) } else { rng.below(4) };
  if n == 0 {
    return "/".to_owned();
  }
  (0..n).map(|_| "/".to_owned() + *rng.pick(names)).collect()
}

/// the kept components of the text of a path, by hand
fn norm(s: &str) -> Vec<String> {
  let mut out = Vec::new();
  for c in s.split('/') {
    match c {
      "" | "." => {}
      ".." => {
        out.pop();
      }
      _ => out.push(c.to_owned()),
    }
  }
  out
}

fn text(kept: &[String]) -> String {
  "/".to_owned() + &kept.join("/")
}

fn is(p: &Path, kept: &[String]) -> Result<(), String> {
  let want = text(kept);
  if p.as_os_str() == os(&want) {
    Ok(())
  } else {
    Err(format!("got {p:?}, not {want:?}"))
  }
}

fn is_clean(p: &Path) -> Result<(), String> {
  let s = p.as_os_str().as_bytes();
  if s.first() != Some(&b'/') || s.split(|c| *c == b'/').any(|c| c == b"." || c == b"..") || !p.is_absolute() {
    return Err(format!("{p:?} is not clean"));
  }
  Ok(())
}

fn p01(run: &mut Run) {
  run.case("root".to_owned(), false, || {
    let r = MemoryFileSystem::root();
    is(r.as_path(), &[])?;
    let c = RealFileSystem::default().current_dir().map_err(|e| e.to_string())?;
    is_clean(c.as_path())
  });
  while run.more() {
    let s = any(&mut run.rng);
    let t = any(&mut run.rng);
    run.case(format!("{s:?}, then {t:?}"), s.starts_with('/') && s.contains(".."), || {
      let Some(mut p) = CleanPathBuf::new(os(&s)) else {
        return if s.starts_with('/') { Err("absolute, but refused".to_owned()) } else { Ok(()) };
      };
      if !s.starts_with('/') {
        return Err("relative, but accepted".to_owned());
      }
      is_clean(p.as_path())?;
      let again = CleanPathBuf::new(p.as_path()).ok_or("clean, but refused")?;
      if again != p || again.as_path().as_os_str() != p.as_path().as_os_str() {
        return Err(format!("cleaning {p:?} again gives {again:?}"));
      }
      let mut q: Option<&CleanPath> = Some(p.as_clean_path());
      let mut kept = norm(&s);
      while let Some(x) = q {
        is_clean(x.as_path())?;
        is(x.as_path(), &kept)?;
        q = x.parent();
        if q.is_some() != kept.pop().is_some() {
          return Err(format!("{x:?} has the parent {q:?}"));
        }
      }
      is_clean(p.as_clean_path().join(os(&t)).as_path())?;
      p.push(os(&t));
      is_clean(p.as_path())?;
      is_clean(p.as_clean_path().as_path())?;
      is_clean(&p.into_path_buf())
    });
  }
}

fn p03(run: &mut Run) {
  while run.more() {
    let s = abs(&mut run.rng);
    let n = run.rng.size(3);
    let ts: Vec<String> = (0..n).map(|_| any(&mut run.rng)).collect();
    run.case(format!("{s:?}, then {ts:?}"), ts.iter().any(|t| t.contains("..")), || {
      let mut p = CleanPathBuf::new(os(&s)).ok_or("refused")?;
      let mut cur = s.clone();
      is(p.as_path(), &norm(&cur))?;
      for t in &ts {
        cur = if t.starts_with('/') { t.clone() } else { text(&norm(&cur)) + "/" + t };
        let joined = p.as_clean_path().join(os(t));
        p.push(os(t));
        is(p.as_path(), &norm(&cur))?;
        is(joined.as_path(), &norm(&cur))?;
      }
      Ok(())
    });
  }
}

fn fill(rng: &mut Rng, n: usize) -> Vec<(bool, String)> {
  (0..n).map(|_| (rng.chance(1, 2), clean_text(rng, &["a", "b", "c", "d", "ab", "\u{e000}", "\u{e001}", "\u{fffd}"]))).collect()
}

/// looks the paths up; `paths[i]` is what id number i stands for
fn look_up(st: &mut Store, ops: &[(bool, String)], ids: &mut Vec<(PathId, String)>) -> Result<(), String> {
  for (owned, s) in ops {
    let p = CleanPathBuf::new(os(s)).ok_or("refused")?;
    let id = if *owned { st.get_id_owned(p.clone()) } else { st.get_id(p.as_clean_path()) };
    check_id(st, ids, id, s)?;
  }
  Ok(())
}

fn check_id(st: &Store, ids: &mut Vec<(PathId, String)>, id: PathId, s: &str) -> Result<(), String> {
  for (i, t) in ids.iter() {
    if (*i == id) != (t == s) {
      return Err(format!("ids of {s:?} and {t:?}: {id:?}, {i:?}"));
    }
  }
  if !ids.iter().any(|x| x.0 == id) {
    ids.push((id, s.to_owned()));
  }
  for (i, t) in ids.iter() {
    if st.get_path(*i).as_path() != Path::new(&os(t)) {
      return Err(format!("{i:?} stands for {:?}, not {t:?}", st.get_path(*i)));
    }
  }
  Ok(())
}

/// more paths than 16 bits number
fn many() -> Result<(), String> {
  let all: Vec<CleanPathBuf> = (0..70_000).map(|i| CleanPathBuf::new(format!("/d{}/f{i}", i % 300)).unwrap()).collect();
  let (mut st, mut other) = (Store::new(), Store::new());
  let ids: Vec<PathId> = all.iter().map(|p| st.get_id(p.as_clean_path())).collect();
  if ids.iter().collect::<HashSet<_>>().len() != all.len() {
    return Err("distinct paths share an id".to_owned());
  }
  let same = |st: &Store, ids: &[PathId], what: &str| match ids.iter().zip(&all).find(|(i, p)| st.get_path(**i) != p.as_clean_path()) {
    Some((_, p)) => Err(format!("{what}: the id of {p:?} stands for another path")),
    None => Ok(()),
  };
  same(&st, &ids, "looked up")?;
  let back: Vec<PathId> = all.iter().rev().map(|p| other.get_id_owned(p.clone())).collect();
  let mut calls = Vec::new();
  st.combine(other, &mut |x, y| calls.push((x, y)));
  if calls.len() != all.len() || !calls.iter().map(|c| c.0).eq(back.iter().copied()) || !calls.iter().map(|c| c.1).eq(ids.iter().rev().copied()) {
    return Err("combine calls back wrongly".to_owned());
  }
  same(&st, &ids, "combined")?;
  if all.iter().zip(&ids).any(|(p, i)| st.get_id(p.as_clean_path()) != *i) {
    return Err("an id changed".to_owned());
  }
  Ok(())
}

fn p02(run: &mut Run) {
  run.case("70000 paths".to_owned(), true, many);
  while run.more() {
    let (n, m, k) = (run.rng.size(13), run.rng.size(9), run.rng.below(6));
    let (a, b, c) = (fill(&mut run.rng, n), fill(&mut run.rng, m), fill(&mut run.rng, k));
    run.case(format!("looked up (owned?) {a:?}; combined with {b:?}; then {c:?}"), n > 4 && m > 2, || {
      let (mut st, mut other) = (Store::new(), Store::new());
      let (mut ids, mut other_ids) = (Vec::new(), Vec::new());
      look_up(&mut st, &a, &mut ids)?;
      look_up(&mut other, &b, &mut other_ids)?;
      let mut calls = Vec::new();
      st.combine(other, &mut |x, y| calls.push((x, y)));
      if calls.len() != other_ids.len() {
        return Err(format!("{} calls for {} paths", calls.len(), other_ids.len()));
      }
      for ((x, y), (i, s)) in calls.iter().zip(&other_ids) {
        if x != i {
          return Err(format!("call with {x:?} where {i:?} is next"));
        }
        check_id(&st, &mut ids, *y, s)?;
      }
      look_up(&mut st, &c, &mut ids)
    });
  }
}

fn p04(run: &mut Run) {
  while run.more() {
    let n = run.rng.size(6);
    let names: &[&str] = if run.rng.chance(2, 3) { &["a", "b", "ab", "a.b"] } else { &["a", "ab", ".a", "a ", "A", "\u{e000}", "\u{e001}", "a\u{fffd}", "a\u{e000}", "é", "..."] };
    let files: Vec<(String, String)> = (0..n)
      .map(|i| (clean_text(&mut run.rng, names), ["", "é", "x\n", "\0", "\u{feff}", "\r\n", " "][run.rng.below(7)].to_owned() + &i.to_string()))
      .collect();
    let q = if run.rng.chance(3, 4) { clean_text(&mut run.rng, names) } else { any(&mut run.rng) };
    run.case(format!("files {files:?}, asked for {q:?}"), n > 3, || {
      let mut m = BTreeMap::new();
      for (p, t) in &files {
        m.insert(CleanPathBuf::new(os(p)).ok_or("refused")?, t.clone());
      }
      let fs = MemoryFileSystem::new(m.clone());
      let q = os(&q);
      let q = Path::new(&q);
      let want = m.iter().find(|x| x.0.as_path() == q).map(|x| x.1.clone());
      match (fs.read_to_string(q), &want) {
        (Ok(s), Some(t)) if s == *t => {}
        (Err(e), None) if e.kind() == std::io::ErrorKind::NotFound => {}
        (r, _) => return Err(format!("read_to_string: {r:?}, not {want:?}")),
      }
      match (fs.read_to_bytes(q), &want) {
        (Ok(s), Some(t)) if s == t.as_bytes() => {}
        (Err(e), None) if e.kind() == std::io::ErrorKind::NotFound => {}
        (r, _) => return Err(format!("read_to_bytes: {r:?}, not {want:?}")),
      }
      if fs.is_file(q) != want.is_some() {
        return Err("is_file is wrong".to_owned());
      }
      let mut got = fs.read_dir(q).map_err(|e| e.to_string())?;
      got.sort();
      let comps: Vec<_> = q.components().collect();
      let below: Vec<PathBuf> = m
        .keys()
        .map(|p| p.as_path().to_path_buf())
        .filter(|p| p.components().count() > comps.len() && p.components().zip(&comps).all(|(x, y)| x == *y))
        .collect();
      if got != below {
        return Err(format!("read_dir: {got:?}, not {below:?}"));
      }
      is(fs.current_dir().map_err(|e| e.to_string())?.as_path(), &[])
    });
  }
}

/// what lies on disk under a name
#[derive(Debug, Clone)]
enum Node {
  File(Vec<u8>),
  Dir(Vec<String>),
  Socket,
  /// a link to the entry at this position
  Link(usize),
  Dangling,
}

/// a directory of its own, gone when dropped
struct Scratch(PathBuf);

impl Scratch {
  fn new(n: usize) -> std::io::Result<Scratch> {
    let p = std::env::temp_dir().join(format!("replay-p05-{}-{n}", std::process::id()));
    std::fs::create_dir(&p)?;
    Ok(Scratch(std::fs::canonicalize(p)?))
  }
}

impl Drop for Scratch {
  fn drop(&mut self) {
    let _ = std::env::set_current_dir("/");
    let _ = std::fs::remove_dir_all(&self.0);
  }
}

fn content(rng: &mut Rng) -> Vec<u8> {
  let parts: &[&[u8]] = &[b"", b"x", b"\n", b"\r\n", b"\xef\xbb\xbf", b"\xff", b"\xc3", b"\xc3\xa9", b"\0", b" ", b"\xed\xa0\x80", b"\xf0\x9f\x98\x80", b"a line of text\n"];
  let valid = rng.chance(1, 2);
  let n = if rng.chance(1, 20) { 3000 + rng.below(9000) } else { rng.below(6) };
  let mut out = Vec::new();
  for _ in 0..n {
    let p = *rng.pick(parts);
    if !valid || std::str::from_utf8(p).is_ok() {
      out.extend(p);
    }
  }
  out
}

/// the node a name leads to
fn led<'a>(nodes: &'a [(String, Node)], k: usize) -> &'a Node {
  match &nodes[k].1 {
    Node::Link(j) => led(nodes, *j),
    n => n,
  }
}

fn same<T: PartialEq + std::fmt::Debug>(what: &str, got: std::io::Result<T>, want: Result<T, Option<std::io::ErrorKind>>) -> Result<(), String> {
  match (got, want) {
    (Ok(g), Ok(w)) if g == w => Ok(()),
    (Err(e), Err(Some(k))) if e.kind() == k => Ok(()),
    (Err(_), Err(None)) => Ok(()),
    (g, w) => Err(format!("{what}: {g:?}, not {w:?}")),
  }
}

/// one path asked about everything
fn ask(q: &Path, node: Option<&Node>, slash: bool) -> Result<(), String> {
  use std::io::ErrorKind::{InvalidData, IsADirectory, NotADirectory, NotFound};
  let fs = RealFileSystem::default();
  let err = match node {
    None | Some(Node::Dangling | Node::Link(_)) => Some(Some(NotFound)),
    Some(Node::File(_) | Node::Socket) if slash => Some(Some(NotADirectory)),
    Some(Node::Dir(_)) => Some(Some(IsADirectory)),
    Some(Node::Socket) => Some(None),
    Some(Node::File(_)) => None,
  };
  let bytes = match (node, err) {
    (Some(Node::File(b)), None) => Ok(b.clone()),
    (_, e) => Err(e.flatten()),
  };
  let string = match &bytes {
    Ok(b) => String::from_utf8(b.clone()).map_err(|_| Some(InvalidData)),
    Err(e) => Err(*e),
  };
  if fs.is_file(q) != bytes.is_ok() {
    return Err(format!("is_file of {q:?} is {}", !bytes.is_ok()));
  }
  same(&format!("read_to_bytes of {q:?}"), fs.read_to_bytes(q), bytes)?;
  same(&format!("read_to_string of {q:?}"), fs.read_to_string(q), string)?;
  let listed = match node {
    Some(Node::Dir(names)) => {
      let mut v: Vec<PathBuf> = names.iter().map(|n| q.join(os(n))).collect();
      v.sort_by(|a, b| a.as_os_str().cmp(b.as_os_str()));
      Ok(v.into_iter().map(PathBuf::into_os_string).collect())
    }
    None | Some(Node::Dangling | Node::Link(_)) => Err(Some(NotFound)),
    Some(_) => Err(Some(NotADirectory)),
  };
  let got = fs.read_dir(q).map(|mut v| {
    v.sort_by(|a, b| a.as_os_str().cmp(b.as_os_str()));
    v.into_iter().map(PathBuf::into_os_string).collect::<Vec<_>>()
  });
  same(&format!("read_dir of {q:?}"), got, listed)
}

/// files the system makes up, and a large one
fn special() -> Result<(), String> {
  let fs = RealFileSystem::default();
  let mut args = Vec::new();
  for a in std::env::args_os() {
    args.extend(a.as_bytes());
    args.push(0);
  }
  let p = Path::new("/proc/self/cmdline");
  if p.exists() {
    ask(p, Some(&Node::File(args)), false)?;
  }
  let p = Path::new("/dev/null");
  if fs.is_file(p) || fs.read_to_bytes(p).map_err(|e| e.to_string())? != [] || fs.read_to_string(p).map_err(|e| e.to_string())? != "" {
    return Err("/dev/null is not empty".to_owned());
  }
  let Ok(d) = Scratch::new(0) else { return Ok(()) };
  let text: Vec<u8> = (0..5_000_000_u32).map(|k| b'a' + (k.wrapping_mul(k) % 23) as u8).collect();
  if std::fs::write(d.0.join("large"), &text).is_ok() {
    ask(&d.0.join("large"), Some(&Node::File(text)), false).map_err(|_| "a file of 5000000 bytes".to_owned())?;
  }
  // many entries
  let names: Vec<String> = (0..3000).map(|k| format!("file {k}")).collect();
  if std::fs::create_dir(d.0.join("many")).is_err() {
    return Ok(());
  }
  for n in &names {
    if std::fs::write(d.0.join("many").join(n), b"").is_err() {
      return Ok(());
    }
  }
  ask(&d.0.join("many"), Some(&Node::Dir(names)), false).map_err(|_| "a directory of 3000 files".to_owned())
}

fn p05(run: &mut Run) {
  run.case("files the system makes up, a file of 5000000 bytes, a directory of 3000 files".to_owned(), true, special);
  let mut count = 0;
  while run.more() {
    count += 1;
    let all: &[&str] = &["a", "b", "a.b", ".a", " ", "...", "-", "é", "e\u{301}", "\n", "A", "~", "a\\b", "*", "a~", "#a#", "a.swp", ".git", "\u{e000}", "\u{e001}", "a\u{e000}", "\u{fffd}", "a:b",
      "a name that is longer than what a small string holds, and then some more", "target", "..a", "a..", "a.tmp", "Thumbs.db", ".DS_Store", "lost+found"];
    let mut names: Vec<&str> = all.to_vec();
    run.rng.shuffle(&mut names);
    let n = if run.rng.chance(1, 30) { names.len() } else { run.rng.below(7) };
    let mut nodes: Vec<(String, Node)> = Vec::new();
    for k in 0..n {
      let node = match run.rng.below(8) {
        0 | 1 => {
          let m = run.rng.below(4);
          let mut inner = all.to_vec();
          run.rng.shuffle(&mut inner);
          Node::Dir(inner[..m].iter().map(|s| (*s).to_owned()).collect())
        }
        2 if k > 0 => Node::Link(run.rng.below(k)),
        3 => Node::Dangling,
        4 if k == 0 => Node::Socket,
        _ => Node::File(content(&mut run.rng)),
      };
      nodes.push((names[k].to_owned(), node));
    }
    let (relative, gone) = (run.rng.chance(1, 3), run.rng.chance(1, 10));
    let shown: Vec<String> = nodes.iter().map(|(s, n)| { let t = format!("{n:?}"); format!("{s:?}: {}", t.chars().take(60).collect::<String>()) }).collect();
    let prepared = std::cell::Cell::new(true);
    run.case(format!("a directory with {shown:?}, asked {}", if relative { "from within" } else { "from outside" }), n > 2, || {
      let checked = || -> Result<(), String> {
      let io = |e: std::io::Error| {
        prepared.set(false);
        format!("could not prepare: {e}")
      };
      let d = Scratch::new(count).map_err(io)?;
      let at = |s: &str| d.0.join(os(s));
      for (s, node) in &nodes {
        match node {
          Node::File(b) => std::fs::write(at(s), b).map_err(io)?,
          Node::Dir(names) => {
            std::fs::create_dir(at(s)).map_err(io)?;
            for n in names {
              std::fs::write(at(s).join(os(n)), n).map_err(io)?;
            }
          }
          Node::Socket => drop(std::os::unix::net::UnixListener::bind(at(s)).map_err(io)?),
          Node::Link(k) => std::os::unix::fs::symlink(at(&nodes[*k].0), at(s)).map_err(io)?,
          Node::Dangling => std::os::unix::fs::symlink("nothing here", at(s)).map_err(io)?,
        }
      }
      let base = if relative {
        std::env::set_current_dir(&d.0).map_err(io)?;
        let got = RealFileSystem::default().current_dir().map_err(|e| format!("current_dir: {e}"))?;
        if got.as_path().as_os_str() != d.0.as_os_str() {
          return Err(format!("current_dir: {got:?} in {:?}", d.0));
        }
        PathBuf::new()
      } else {
        d.0.clone()
      };
      let top = Node::Dir(nodes.iter().map(|x| x.0.clone()).collect());
      ask(&base.join("."), Some(&top), false)?;
      if !relative {
        ask(&base, Some(&top), false)?;
        ask(&base.join(""), Some(&top), true)?;
      }
      for (k, (s, _)) in nodes.iter().enumerate() {
        let node = led(&nodes, k);
        ask(&base.join(os(s)), Some(node), false)?;
        ask(&base.join(os(s)).join(""), Some(node), true)?;
        ask(&base.join(".").join(os(s)), Some(node), false)?;
        if let Node::Dir(inner) = node {
          ask(&base.join(os(s)).join("..").join("nothing here"), None, false)?;
          for n in inner {
            ask(&base.join(os(s)).join(os(n)), Some(&Node::File(n.as_bytes().to_vec())), false)?;
          }
        }
      }
      ask(&base.join("nothing here"), None, false)?;
      if gone {
        let p = d.0.join("gone");
        std::fs::create_dir(&p).map_err(io)?;
        std::env::set_current_dir(&p).map_err(io)?;
        std::fs::remove_dir(&p).map_err(io)?;
        if let Ok(p) = RealFileSystem::default().current_dir() {
          return Err(format!("current_dir: {p:?}, which is gone"));
        }
      }
      Ok(())
      };
      // no room for the scratch directory is no fault of the code
      checked().or_else(|e| if prepared.get() { Err(e) } else { Ok(()) })
    });
  }
}

fn main() {
  run_main(&[
    ("P01", "paths of mostly up to 5 components out of 35, some no UTF-8, repeated and trailing slashes; nontrivial: absolute with a `..`", p01),
    ("P02", "70000 lookups; mostly up to 14 lookups, combined with a store of up to 10, then up to 6 more; nontrivial: more than 4 lookups and more than 2 in the other", p02),
    ("P03", "absolute paths and mostly up to 3 pushes of relative and absolute paths; nontrivial: a push with a `..`", p03),
    ("P04", "mostly up to 6 files, asked for a path that may be stored; nontrivial: more than 3 files", p04),
    ("P05", "some special files; scratch directories of mostly up to 6 entries (files, directories, links, sockets) with odd names and contents, asked for each in several spellings, from outside or within; nontrivial: more than 2 entries", p05),
  ]);
}
