#!/usr/bin/env python3
"""Decide one property on /repo's current working tree.

  run.py check PROPERTY      (VERIF_TIER, VERIF_SEED from the environment)
  run.py baseline [UNIT..]   regenerate units/*.baseline.json from /repo (development only)

Steps (see DESIGN.md): extract the real functions, splice contracts in, run Verus (plus a
vacuity run in which every canary must fail), run the replay oracles on the real crates, decide.
"""
import concurrent.futures as cf
import hashlib
import json
import os
import re
import resource
import shutil
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
sys.path.insert(0, os.path.join(VERIF, "tools"))
from registry import PROPS, UNITS  # noqa: E402

TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
# a check has 900 s: the verifier's share, after which the tree counts as undecided and replay decides
VERIFIER_S = 500 if TIER == "quick" else 3000
START = time.time()
CHECKER = "verus <unit>.rs --output-json --time-expanded --error-format=json --log air --rlimit R"
OBLIGATION = re.compile(
    r'"(postcondition not satisfied|precondition not satisfied|assertion failed|'
    r"invariant not satisfied[a-z ]*|loop invariant not[a-z ]*|possible arithmetic underflow/overflow|"
    r"possible division by zero|possible bit shift[a-z/ ]*|decreases not satisfied[a-z ]*|"
    r"could not prove termination|unreachable code|recommendation not met|"
    r"constructed value may fail[a-z ]*|requires not satisfied|index out of bounds[a-z ]*|"
    r'match failed[a-z ]*|loop ensures not satisfied[a-z ]*|[a-z -]*not satisfied[a-z ]*)"'
)


def limit():
    resource.setrlimit(resource.RLIMIT_AS, (14 << 30, 14 << 30))


def sh(cmd, timeout, cwd=None, env=None, stdin=None):
    """Runs a command in its own process group; returns (code or None on timeout, stdout, stderr)."""
    p = subprocess.Popen(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True,
                         errors="replace", start_new_session=True, stdin=subprocess.DEVNULL, preexec_fn=limit)
    try:
        out, err = p.communicate(timeout=timeout)
        return p.returncode, out, err
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, 9)
        except OSError:
            pass
        out, err = p.communicate()
        return None, out, err


def cargo_env(target):
    e = dict(os.environ)
    e["CARGO_TARGET_DIR"] = target
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    return e


def build_extractor():
    d = os.path.join(VERIF, "tools", "extract")
    t = os.path.join(BUILD, "extract-target")
    rc, out, err = sh(["cargo", "build", "--offline", "--release", "--locked"], 600, d, cargo_env(t))
    if rc != 0:
        raise SystemExit(f"cannot build the extractor:\n{err}")
    return os.path.join(t, "release", "extract")


# ---------------------------------------------------------------- one Verus run

FN_RE = re.compile(r"\bfn\s+([A-Za-z_0-9]+)")


class Gen:
    """The generated file: which function each line belongs to."""

    def __init__(self, path):
        self.text = open(path).read()
        self.owner = [None]
        cur, spliced = None, False
        for line in self.text.split("\n"):
            m = list(re.finditer(r"/\*@fn ([^|]*)\|(\S+?)\*/", line))
            if m:
                cur, spliced = ("real", m[-1].group(1), m[-1].group(2)), True
            elif not spliced:
                f = FN_RE.search(line)
                if f:
                    cur = ("lemma", None, f.group(1))
            self.owner.append(cur)
            if "/*@endfn*/" in line and spliced and line.rfind("/*@endfn*/") > line.rfind("/*@fn "):
                cur, spliced = None, False

    def at(self, line):
        return self.owner[line] if line < len(self.owner) else None


def diag_owner(gen, d):
    spans = [at_call(s) for s in d.get("spans") or []]
    pick = None
    for s in spans:
        lab = s.get("label") or ""
        if "at the end of the function body" in lab or "at this exit" in lab or "at this loop" in lab:
            pick = s
    if pick is None:
        pick = next((s for s in spans if s.get("is_primary")), spans[0] if spans else None)
    if pick is None:
        return None, 0
    if "end of the function body" in (pick.get("label") or ""):
        return gen.at(pick["line_end"]) or gen.at(pick["line_start"]), pick["line_start"]
    return gen.at(pick["line_start"]), pick["line_start"]


def at_call(s):
    """The place a macro was called from, for a span inside the macro's definition."""
    while (s.get("expansion") or {}).get("span"):
        lab, prim = s.get("label"), s.get("is_primary")
        s = dict(s["expansion"]["span"])
        s["label"], s["is_primary"] = lab, prim
    return s


class Result:
    pass


def time_left():
    return VERIFIER_S - (time.time() - START)


def verus(gen_path, rlimit, extra, timeout, airdir=None):
    timeout = max(30, min(timeout, time_left()))
    cmd = ["verus", os.path.basename(gen_path), "--output-json", "--time-expanded", "--error-format=json",
           "--multiple-errors", "8", "--rlimit", str(rlimit)] + extra
    if airdir:
        shutil.rmtree(airdir, ignore_errors=True)
        cmd += ["--log", "air", "--log-dir", airdir]
    rc, out, err = sh(cmd, timeout, os.path.dirname(gen_path))
    r = Result()
    r.timeout = rc is None
    r.cmd = " ".join(cmd)
    r.diags = []
    for line in err.split("\n"):
        if line.startswith("{"):
            try:
                d = json.loads(line)
            except ValueError:
                continue
            if d.get("$message_type") == "diagnostic" or "spans" in d:
                r.diags.append(d)
    i = out.find("{")
    try:
        r.json = json.loads(out[i:]) if i >= 0 else {}
    except ValueError:
        r.json = {}
    v = r.json.get("verification-results", {})
    r.verified, r.errors = v.get("verified"), v.get("errors")
    r.vir_error = bool(v.get("encountered-vir-error"))
    r.ran = r.verified is not None and not r.vir_error and (r.verified + (r.errors or 0)) > 0
    r.raw_err = err
    r.fns = []
    for m in r.json.get("times-ms", {}).get("smt", {}).get("smt-run-module-times", []):
        for f in m.get("function-breakdown", []):
            r.fns.append(f)
    r.version = r.json.get("verus", {})
    r.obligations = 0
    if airdir and os.path.isdir(airdir):
        for f in os.listdir(airdir):
            if f.endswith(".air"):
                t = open(os.path.join(airdir, f), errors="replace").read()
                r.obligations += sum(1 for m in OBLIGATION.finditer(t) if m.group(1) != "recommendation not met")
        shutil.rmtree(airdir, ignore_errors=True)
    return r


# ---------------------------------------------------------------- structural facts

def shape(f):
    return {k: f.get(k) for k in ("sig", "loops", "closures", "has_body")}


def facts_summary(facts):
    facts = dict(facts, structs={f"{f['item']}": f["text"] for f in facts["fns"] if "item" in f},
                 fns=[f for f in facts["fns"] if "fn" in f])
    return {
        "fns": {f"{f['file']}|{f['fn']}": dict(shape(f), body=hashlib.sha256(f["body"].encode()).hexdigest()[:16],
                                              overlay=f["overlay"]) for f in facts["fns"]},
        "structs": facts.get("structs", {}),
        "dropped": facts.get("dropped", []),
    }


def no_longer_derived(base, facts):
    """Derives (of comparisons, Clone, ...) that the specifications read and the tree no longer has."""
    now = set(facts.get("dropped", []))
    return [f"{d.split(': derive ')[0]}: {d.split(': derive ')[1].replace(' on ', ' is no longer derived on ')}"
            for d in (base or {}).get("dropped", [])
            if ": derive " in d and ": derive Debug " not in d and d not in now]


def run_unit(unit, extractor):
    """Extract, verify, check vacuity. Returns a dict."""
    cfg = UNITS[unit]
    u = {"unit": unit, "status": "ok", "external": [], "failed": [], "deviations": [], "lost": [], "notes": [],
         "obligations": 0, "discharged": 0, "solver_ms": 0, "fns": [], "verified_fns": [], "trusted": [],
         "canaries": 0, "canaries_failed": 0, "canaries_unsure": 0, "diag_text": ""}
    ov = os.path.join(VERIF, "units", unit + ".vrs")
    wd = os.path.join(BUILD, "u", unit)
    shutil.rmtree(wd, ignore_errors=True)
    os.makedirs(wd)
    gen, canary = os.path.join(wd, unit + ".rs"), os.path.join(wd, unit + "_canary.rs")
    factsf = os.path.join(wd, "facts.json")
    base_f = os.path.join(VERIF, "units", unit + ".baseline.json")
    base = json.load(open(base_f)) if os.path.exists(base_f) else None
    rlimit = cfg.get("rlimit", 20)
    external = []
    r = None
    for attempt in range(6):
        ext = [x for e in external for x in ("--external", e)]
        rc, out, err = sh([extractor, ov, REPO, gen, factsf] + ext, 60)
        if rc != 0:
            u["status"] = "extract-failed"
            u["notes"].append((err or out).strip()[-2000:])
            return u
        facts = json.load(open(factsf))
        if base is not None and attempt == 0:
            u["deviations"] = compare(base, facts_summary(facts))
        u["lost"] = facts.get("lost", []) + no_longer_derived(base, facts)
        g = Gen(gen)
        can_f = None
        with cf.ThreadPoolExecutor(2) as ex:
            main_f = ex.submit(verus, gen, rlimit, cfg.get("args", []), cfg.get("timeout", 600),
                               os.path.join(wd, "air"))
            if attempt == 0:
                sh([extractor, ov, REPO, canary, factsf + ".c", "--canary"], 60)
                can_f = ex.submit(verus, canary, cfg.get("canary_rlimit", 6), cfg.get("args", []),
                                  cfg.get("timeout", 600))
            r = main_f.result()
            if can_f is not None:
                c = can_f.result()
        if attempt == 0:
            u["canaries"] = (json.load(open(factsf + ".c")).get("canaries", 0)
                             if os.path.exists(factsf + ".c") else 0)
            u["canaries_failed"], u["canaries_unsure"] = count_canaries(c, canary)
            u["canary_ran"] = c.ran
        if r.timeout:
            u["status"] = "timeout"
            return u
        if r.ran:
            break
        # not accepted by the front end: put the offending functions outside, if they can be found
        bad = set()
        for d in r.diags:
            if d.get("level") != "error":
                continue
            for s in d.get("spans") or []:
                o = g.at(at_call(s)["line_start"])
                if o and o[0] == "real":
                    bad.add(o[2])
        text = "\n".join(d.get("rendered") or d.get("message", "") for d in r.diags if d.get("level") == "error")
        u["notes"].append("not accepted by the front end: " + text[:1500])
        new = [b for b in sorted(bad) if b not in external]
        if not new:
            u["status"] = "front-end"
            return u
        external += new
    if not r.ran:
        u["status"] = "front-end"
        return u
    u["external"] = external
    errs = [d for d in r.diags if d.get("level") == "error" and d.get("spans")]
    failed = collect_failed(g, errs)
    if r.errors:
        # once more with more resources and other solver seeds, to rule out a solver limit
        retried = False
        for extra in (["--smt-option", "smt.random_seed=7"], ["--smt-option", "smt.random_seed=23"]):
            if time_left() < 30:
                break
            r2 = verus(gen, rlimit * 4, cfg.get("args", []) + extra, cfg.get("timeout", 600))
            if r2.ran and not r2.timeout:
                retried = True
                f2 = collect_failed(g, [d for d in r2.diags if d.get("level") == "error" and d.get("spans")])
                failed = {k: v for k, v in failed.items() if k in f2}
                errs = [d for d in r2.diags if d.get("level") == "error" and d.get("spans")]
                if not failed:
                    break
    u["failed"] = sorted([list(k[:3]) + [v] for k, v in failed.items()], key=str)
    u["diag_text"] = "\n".join((d.get("rendered") or "") for d in errs)[:20000]
    u["obligations"] = r.obligations
    nfail = sum(len(v) for v in failed.values())
    u["discharged"] = r.obligations - nfail
    u["solver_ms"] = sum(f.get("time", 0) for f in r.fns)
    u["verified_fns"] = sorted({f["function"] for f in r.fns if f.get("success")})
    u["fns"] = [f for f in facts["fns"] if "fn" in f]
    u["queries"] = len(r.fns)
    u["trusted"] = scan_trusted(g.text)
    u["traits"] = set(re.findall(r"^\s*pub trait (\w+)", open(ov).read() + "".join(
        open(os.path.join(VERIF, "units", i)).read() for i in re.findall(r"^//@include (\S+)", open(ov).read(), re.M)), re.M))
    u["dropped"] = facts.get("dropped", [])
    u["rewrites"] = facts.get("rewrites", [])
    u["rlimit_hit"] = any("esource limit" in (d.get("message") or "") for d in errs) or bool(r.errors and failed and not retried)
    u["cmd"] = r.cmd
    return u


def count_canaries(c, path):
    """How many canaries failed as they must, and how many the solver gave up on (not proved either)."""
    if not os.path.exists(path):
        return 0, 0
    lines = open(path).read().split("\n")
    g = Gen(path)
    hit, gave_up = set(), set()
    for d in c.diags:
        if d.get("level") != "error":
            continue
        for s in d.get("spans") or []:
            if "assertion failed" in d.get("message", ""):
                seg = lines[s["line_start"] - 1][s["column_start"] - 1:s["column_end"] + 40]
                m = re.search(r"vcanary\((\d+)\)", seg)
                if m:
                    hit.add(int(m.group(1)))
            elif "esource limit" in d.get("message", ""):
                gave_up.add(g.at(s["line_start"]))
    unsure = set()
    for i, l in enumerate(lines, 1):
        for m in re.finditer(r"assert\(crate::vcanary\((\d+)\)\)", l):
            if g.at(i) in gave_up:
                unsure.add(int(m.group(1)))
    return len(hit), len(unsure - hit)


def collect_failed(g, errs):
    failed = {}
    for d in errs:
        o, line = diag_owner(g, d)
        if o is None:
            o = ("unknown", None, f"line {line}")
        failed.setdefault(o, []).append(d.get("message", "?"))
    return failed


def compare(base, now):
    dev = []
    for k, v in base["fns"].items():
        n = now["fns"].get(k)
        if n is None:
            dev.append({"fn": k, "what": "gone"})
            continue
        for a in ("sig", "loops", "closures", "has_body"):
            if n[a] != v[a]:
                dev.append({"fn": k, "what": f"{a}: {v[a]} -> {n[a]}"})
    for k in now["fns"]:
        if k not in base["fns"]:
            dev.append({"fn": k, "what": "new"})
    if base["structs"] != now["structs"]:
        dev.append({"fn": "", "what": "type definitions changed"})
    if [d for d in now["dropped"] if d not in base["dropped"]]:
        dev.append({"fn": "", "what": "more items left out"})
    return dev


def scan_trusted(text):
    """A mechanical list of everything the verifier takes on trust."""
    out = []
    lines = text.split("\n")
    for i, l in enumerate(lines):
        s = l.strip()
        if s.startswith("//"):
            continue
        for word, what in (("external_body", "assumed contract"), ("assume_specification", "assumed contract"),
                           ("axiom fn", "axiom"), ("assume(", "assumption"), ("admit(", "assumption"),
                           ("uninterp spec fn", "uninterpreted"),
                           ("external_trait_specification", "trait contract"),
                           ("external_type_specification", "opaque type"), ("#[verifier::external]", "external")):
            if word in l:
                name = ""
                for k in range(i, min(i + 6, len(lines))):
                    m = re.search(r"assume_specification\s*(?:<[^\[]*>)?\s*\[\s*(.+?)\s*\]", lines[k])
                    if word == "assume_specification" and m:
                        name = m.group(1)
                        break
                    m = re.search(r"\b(?:fn|struct|trait|enum|impl)\s+([^({;]+)", lines[k])
                    if m and word != "assume_specification":
                        name = m.group(1).strip()
                        break
                if "vcanary" in name:
                    continue
                out.append(f"{what}: {name or s}"[:160])
                break
    return sorted(set(out))


# ---------------------------------------------------------------- replay oracles on the real code

PROFILES = ("debug", "release")


def replay_one(name, bins, profile, budget, seed):
    """One oracle against the crates as built in one profile."""
    res = {"ran": False, "failed": None, "evaluations": 0, "distinct": 0, "rule": "", "samples": [], "build_error": None,
           "known": []}
    t = os.path.join(BUILD, "replay-target")
    rc, out, err = sh(["cargo", "build", "--offline", "--locked", "--quiet", "-p", "replay-" + bins]
                      + (["--release"] if profile == "release" else []), 700, os.path.join(VERIF, "replay"), cargo_env(t))
    if rc != 0:
        res["build_error"] = err[-6000:]
        return res
    env = dict(os.environ)
    env["REPLAY_KNOWN"] = os.path.join(VERIF, "known-findings.json")
    cwd = os.path.join(BUILD, "replay-" + profile)
    os.makedirs(cwd, exist_ok=True)
    rc, out, err = sh([os.path.join(t, profile, "replay-" + bins), name, str(seed), str(budget)], budget + 60, cwd, env)
    res["ran"] = True
    for line in out.split("\n"):
        if line.startswith("{"):
            try:
                j = json.loads(line)
            except ValueError:
                continue
            if j.get("t") == "fail":
                res["failed"] = j
                j["profile"] = profile
            elif j.get("t") == "known":
                res["known"].append(j["id"])
            elif j.get("t") == "done":
                for k in ("evaluations", "distinct", "rule", "samples"):
                    res[k] = j.get(k, res[k])
                res["done"] = True
    if res["failed"] is None and not res.get("done"):
        # killed, hung, overflowed the stack: the last case announced is the culprit
        last = ""
        cur = os.path.join(cwd, f"replay-{name}.current")
        if os.path.exists(cur):
            last = open(cur, errors="replace").read()[:4000]
        res["failed"] = {"t": "fail", "what": "the real code did not return" if rc is None else f"the real code aborted (exit {rc})",
                         "input": last, "stderr": err[-2000:], "profile": profile}
    return res


def replay(prop, budget, seed=SEED):
    """The oracle of the property against the crates as built for debugging (with debug assertions and overflow checks)
    and for release (without)."""
    cfg = PROPS[prop]
    name = cfg.get("replay")
    bins = cfg.get("replay_bin", name.lower())
    with cf.ThreadPoolExecutor(2) as ex:
        fs = [ex.submit(replay_one, name, bins, p, budget, seed + 500 * i) for i, p in enumerate(PROFILES)]
        rs = [f.result() for f in fs]
    res = rs[0]
    for r in rs[1:]:
        res["build_error"] = res["build_error"] or r["build_error"]
        res["failed"] = res["failed"] or r["failed"]
        res["ran"] = res["ran"] and r["ran"] or res["failed"] is not None
        for k in ("evaluations", "distinct"):
            res[k] += r[k]
        res["known"] = sorted(set(res["known"]) | set(r["known"]))
        res["rule"] = res["rule"] or r["rule"]
        res["samples"] = res["samples"] or r["samples"]
    return res


# ---------------------------------------------------------------- decision

def relevant(spec, name):
    return spec is None or re.search(spec, name or "") is not None


def under_contract(f, u):
    """Has a contract of its own or one of the trait it implements, and its body is verified."""
    if f["external"] or not f.get("has_body"):
        return False
    m = re.match(r"(\w+)@[^:]+::(\w+)", f["fn"])
    return f["contract"] or (m is not None and m.group(1) in u.get("traits", ())) or (m is not None and any(
        x["fn"] == f"trait {m.group(1)}::{m.group(2)}" and x["contract"] for x in u["fns"]))


def check(prop):
    t0 = time.time()
    cfg = PROPS[prop]
    os.makedirs(BUILD, exist_ok=True)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    os.makedirs(os.path.join(BUILD, "violations"), exist_ok=True)
    budget = cfg.get("budget", {}).get(TIER, 14 if TIER == "quick" else 240)
    with cf.ThreadPoolExecutor(4) as ex:
        rep_f = ex.submit(replay, prop, budget)
        extractor = build_extractor()
        us = {u: f for u, f in ((u, ex.submit(run_unit, u, extractor)) for u in cfg["units"])}
        units = {u: f.result() for u, f in us.items()}
        rep = rep_f.result()

    undecided, failed, vac = [], [], []
    for name, u in units.items():
        spec = cfg["units"][name]
        if u["status"] != "ok":
            undecided.append(f"{name}: {u['status']}: {' '.join(u['notes'])[:600]}")
            continue
        for k in u["failed"]:
            kind, path, fn, msgs = k
            files = cfg.get("files", {}).get(name)
            if path and files and not re.search(files, path):
                continue
            if kind == "unknown" or relevant(spec, fn):
                failed.append({"unit": name, "file": path, "function": fn, "obligations": msgs})
            elif re.search(cfg.get("also", "$^"), fn or ""):
                undecided.append(f"{name}: {fn}, which has to keep what the property depends on, fails {'; '.join(msgs)[:300]}")
        for e in u["external"]:
            if relevant(spec, e) or re.search(cfg.get("also", "$^"), e):
                undecided.append(f"{name}: {e} is outside the verifier's reach on this tree")
        for l in u["lost"]:
            if l.startswith("crates/") or relevant(spec, l.rsplit(": ", 1)[0]):
                undecided.append(f"{name}: annotation lost its place: {l}")
        if u["canaries_failed"] + u["canaries_unsure"] < u["canaries"] and not u["external"]:
            if u.get("canary_ran"):
                vac.append(f"{name}: {u['canaries'] - u['canaries_failed'] - u['canaries_unsure']} of {u['canaries']} reachability asserts did not fail")
        if u["obligations"] == 0:
            vac.append(f"{name}: no obligations")
    dev = [d for u in units.values() for d in u["deviations"]]
    rlimit = any(u.get("rlimit_hit") for u in units.values())

    if rep["failed"] is None and rep["ran"] and (failed or undecided):
        # the proof does not decide this tree: look harder for a failing input
        more = replay(prop, min(6 * budget, 240), SEED + 1000)
        more["evaluations"] += rep["evaluations"]
        more["distinct"] += rep["distinct"]
        more["known"] = sorted(set(more["known"]) | set(rep["known"]))
        rep = more
    violation, reason = None, ""
    if rep["failed"] is not None:
        violation = "input"
    elif failed:
        # an obligation that is discharged on the unchanged tree is not discharged here
        if dev or undecided or rlimit:
            reason = "undischarged obligations in code whose shape the contracts do not fit; decided by bounded replay only"
        else:
            violation = "obligation"
    proof = not failed and not undecided and not vac and bool(cfg["units"])
    known = rep["known"]

    total = sum(u["obligations"] for u in units.values())
    disch = sum(u["discharged"] for u in units.values())
    trusted = sorted({t for u in units.values() for t in u["trusted"]}) + cfg.get("trusted", [])
    cov = {
        "functions_under_contract": sorted({f"{f['file']}::{f['fn']}" for n, u in units.items() for f in u["fns"]
                                            if under_contract(f, u) and relevant(cfg["units"][n], f["fn"])
                                            and re.search(cfg.get("files", {}).get(n, ""), f["file"])}),
        "verified_queries": sum(u.get("queries", 0) for u in units.values()),
        "back_end": "Verus 0.2026.09.13 (Z3)",
        "solver_ms": sum(u["solver_ms"] for u in units.values()),
        "vacuity_asserts": {n: {"failed_as_they_must": u["canaries_failed"], "solver_gave_up": u["canaries_unsure"],
                                "of": u["canaries"]} for n, u in units.items()},
        "replay": {"evaluations": rep["evaluations"], "distinct_nontrivial": rep["distinct"], "rule": rep["rule"],
                   "samples": rep["samples"][:3], "label": "bounded: supports the proof, never counted as proved"},
        "left_out_of_extraction": sorted({str(d) for u in units.values() for d in u.get("dropped", [])})[:60],
        "rewrites": [r for u in units.values() for r in u.get("rewrites", [])][:60],
    }
    if cfg.get("bounded"):
        cov["bounded_parts"] = cfg["bounded"]
    if undecided or failed or vac or dev:
        cov["undecided"] = undecided + vac + [f"undischarged: {f}" for f in failed]
        cov["shape_changes"] = dev[:40]
    level = "proof" if proof and cfg.get("level", "proof") == "proof" else "exploration"
    if level == "proof":
        cov.update(obligations=total, discharged=disch, trusted_base=trusted,
                   checker_cmd="; ".join(u.get("cmd", "") for u in units.values()))
    else:
        cov.update(evaluations=rep["evaluations"], distinct_nontrivial=rep["distinct"], rule=rep["rule"],
                   samples=rep["samples"] or ["none"], obligations=total, discharged=disch, trusted_base=trusted,
                   checker_cmd="; ".join(u.get("cmd", "") for u in units.values()))
    if rep["build_error"]:
        cov["replay_build_error"] = rep["build_error"][-1500:]

    ev = {"property": prop, "tier": TIER, "seed": SEED, "level": level, "coverage": cov,
          "assumptions": cfg.get("assumptions", []), "wall_s": round(time.time() - t0, 2),
          "violations": 1 if violation else 0}
    json.dump(ev, open(os.path.join(VERIF, "evidence", prop + ".json"), "w"), indent=1)

    for k in known:
        print(f"KNOWN-FINDING: property={prop} {k}")
    print(f"{prop}: obligations {disch}/{total} discharged, replay {rep['evaluations']} cases"
          f"{' (did not build)' if rep['build_error'] else ''}, {ev['wall_s']} s, level {level}")
    for x in undecided + vac:
        print("  undecided:", x[:400])
    for x in failed:
        print("  undischarged:", x)
    for x in dev[:10]:
        print("  shape change:", x)
    if reason:
        print("  " + reason)
    if violation:
        path = os.path.join(BUILD, "violations", prop + ".json")
        rec = {"property": prop, "kind": violation, "failing_input": rep["failed"],
               "undischarged_obligations": failed, "shape_changes": dev,
               "verifier_output": {n: u["diag_text"] for n, u in units.items() if u["diag_text"]},
               "replay_cmd": f"VERIF_SEED={SEED} python3 {VERIF}/tools/run.py check {prop}"}
        json.dump(rec, open(path, "w"), indent=1)
        tail = "" if violation == "input" else " no-failing-input-found"
        if rep["failed"]:
            print("  failing input:", json.dumps(rep["failed"])[:1500])
        print(f"VIOLATION property={prop} replay={path}{tail}")
        return 1
    return 0


def baseline(names):
    ex = build_extractor()
    for n in names or UNITS:
        f = os.path.join(BUILD, "baseline.facts.json")
        rc, out, err = sh([ex, os.path.join(VERIF, "units", n + ".vrs"), REPO, os.path.join(BUILD, "baseline.rs"), f], 60)
        if rc != 0:
            raise SystemExit(err)
        json.dump(facts_summary(json.load(open(f))), open(os.path.join(VERIF, "units", n + ".baseline.json"), "w"),
                  indent=1, sort_keys=True)
        print("baseline", n)


if __name__ == "__main__":
    if sys.argv[1] == "check":
        sys.exit(check(sys.argv[2]))
    elif sys.argv[1] == "setup":
        os.makedirs(BUILD, exist_ok=True)
        build_extractor()
        for p in ([], ["--release"]):
            r = sh(["cargo", "build", "--offline", "--locked", "--quiet"] + p, 900, os.path.join(VERIF, "replay"),
                   cargo_env(os.path.join(BUILD, "replay-target")))
            print(r[2])
    elif sys.argv[1] == "baseline":
        baseline(sys.argv[2:])
