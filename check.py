#!/usr/bin/env python3
"""check.py PROPERTY: decide one property on /repo's current working tree.

1. extract the functions under contract from /repo (tools/extract),
2. have Verus discharge every obligation (units of contracts/), plus a canary
   run in which every contract must fail where `false` is asserted,
3. run the bounded search for a failing input on the real crate (harness/*):
   the replay of a failed obligation, and the stand-in (labelled bounded) for
   whatever could not be brought before the verifier.

exit 0: held.  exit 1: a line `VIOLATION property=.. replay=..`.
"""
import json, os, re, subprocess, sys, threading, time, shutil

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VP_REPO", "/repo")
BUILD = os.path.join(HERE, "build")
sys.path.insert(0, os.path.join(HERE, "tools"))
from units import UNITS, PROPS  # noqa: E402
import corpus  # noqa: E402
import literals  # noqa: E402

SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = os.environ.get("VERIF_TIER", "quick") or "quick"
THOROUGH = TIER == "thorough"


def say(line):
    """Print what may quote arbitrary input: control characters escaped, so the output stays text."""
    print("".join(c if c.isprintable() or c == "\n" else f"\\u{{{ord(c):x}}}" for c in line))


def env(toolchain=None):
    e = dict(os.environ)
    e["PATH"] = os.path.expanduser("~/.cargo/bin") + ":/usr/local/bin:" + e.get("PATH", "")
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    e["RUSTC_WRAPPER"] = ""
    e["VX_KNOWN"] = os.path.join(HERE, "tools", "known_fns.json")
    e.pop("RUSTFLAGS", None)
    if toolchain:
        e["RUSTUP_TOOLCHAIN"] = toolchain
    else:
        e.pop("RUSTUP_TOOLCHAIN", None)
    return e


def run(cmd, timeout, cwd=None, toolchain=None, mem_gb=None, extra_env=None):
    t = time.time()
    pre = None
    if mem_gb:
        import resource

        def pre():
            resource.setrlimit(resource.RLIMIT_AS, (mem_gb << 30, mem_gb << 30))
    e = env(toolchain)
    if extra_env:
        e.update(extra_env)
    try:
        p = subprocess.Popen(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                             text=True, errors="replace", preexec_fn=pre, start_new_session=True)
    except OSError as ex:
        return 127, "", str(ex), 0.0
    try:
        o, er = p.communicate(timeout=timeout)
        return p.returncode, o, er, time.time() - t
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, 9)
        except OSError:
            pass
        o, er = p.communicate()
        return -9, o or "", (er or "") + "\ntimeout", time.time() - t


def cargo_build(crate, target, toolchain, release=False, timeout=600):
    cmd = ["cargo", "build", "--offline", "--quiet"] + (["--release"] if release else [])
    return run(cmd, timeout, cwd=crate, toolchain=toolchain, extra_env={"CARGO_TARGET_DIR": target})


# ---------------------------------------------------------------- verification

EXPANDED = {}
PUT_BACK = set()  # helpers new in the code, put back where they are used (tools/extract/src/inline.rs)
EXPAND_LOCK = threading.Lock()


def expand(flat=False):
    """build/expanded.rs: what the derive macros make of the corpus, as the compiler prints it."""
    with EXPAND_LOCK:
        if "done" not in EXPANDED:
            EXPANDED["done"] = True
            rc, o, e, w = run(["cargo", "rustc", "--offline", "--quiet", "--", "-Zunpretty=expanded"], 600,
                              cwd=os.path.join(HERE, "corpus"), toolchain="1.83.0",
                              extra_env={"CARGO_TARGET_DIR": os.path.join(BUILD, "corpus"), "RUSTC_BOOTSTRAP": "1"})
            if rc != 0 or not o.strip():
                EXPANDED["error"] = "the corpus does not compile: " + e[-1500:]
            else:
                open(os.path.join(BUILD, "expanded.rs"), "w").write(o)
                # the element types, rewritten into the forms the verifier accepts
                rc, o, e, w = run([EXTRACT, "flatten", os.path.join(BUILD, "expanded.rs"), os.path.join(BUILD, "flat.rs")], 120)
                if rc != 0:
                    EXPANDED["flat"] = "the expansion could not be rewritten: " + (e or o)[-1500:]
    if "error" in EXPANDED:
        raise RuntimeError(EXPANDED["error"])
    if flat and "flat" in EXPANDED:
        raise RuntimeError(EXPANDED["flat"])


def expand_macros():
    """build/macros.rs: the macro crate's own modules, rewritten into the forms the verifier accepts."""
    with EXPAND_LOCK:
        if "macros" not in EXPANDED:
            rc, o, e, w = run([EXTRACT, "macros", os.path.join(REPO, "static-xml-derive", "src"), os.path.join(BUILD, "macros.rs")], 120)
            PUT_BACK.update(l[len("put back in "):].strip() for l in e.splitlines() if l.startswith("put back in "))
            EXPANDED["macros"] = None if rc == 0 else "the macro crate could not be rewritten: " + (e or o)[-1500:]
    if EXPANDED["macros"]:
        raise RuntimeError(EXPANDED["macros"])


class Unit:
    """One template of contracts/, extracted from /repo and verified."""

    def __init__(self, name):
        self.name = name
        self.cfg = UNITS[name]
        self.undecided = {}      # fn key -> reason
        self.fatal = None
        self.failures = []       # obligations refused: {fn, props, message, label, line, text}
        self.verified = 0
        self.errors = 0
        self.fns = []
        self.smt_ms = 0
        self.wall = 0.0
        self.canaries = 0
        self.canaries_failed = 0
        self.vacuous = []
        self.cmd = ""
        self.assumed = []
        self.output = ""

    def extract(self, out, trust, canary=False):
        tpl = os.path.join(HERE, "contracts", self.name + ".rs")
        if self.cfg.get("generate"):
            tpl = self.cfg["generate"](self, out)
        if self.cfg.get("expand") == "macros":
            expand_macros()
        elif self.cfg.get("expand"):
            expand(self.cfg["expand"] == "flat")
        cmd = [EXTRACT, tpl, self.cfg.get("root", lambda: REPO)(), out + ".rs", out + ".json"]
        for k in trust:
            cmd += ["--trust", k]
        if canary:
            cmd.append("--canary")
        rc, o, e, _ = run(cmd, 120, extra_env={"VX_BUILD": BUILD})
        if rc != 0 or not os.path.exists(out + ".json"):
            raise RuntimeError("extraction failed: " + (e or o)[-2000:])
        PUT_BACK.update(l[len("put back in "):].strip() for l in e.splitlines() if l.startswith("put back in "))
        return json.load(open(out + ".json"))

    def verus(self, out, rlimit=None, extra=(), seed=None):
        cmd = ["verus", os.path.basename(out) + ".rs", "--output-json", "--time-expanded", "--triggers-mode", "silent",
               ] + (list(extra) if extra else ["--multiple-errors", "4"])
        for m in self.cfg.get("modules", lambda: [])():
            cmd += ["--verify-module", m]
        if rlimit:
            cmd += ["--rlimit", str(rlimit)]
        if seed:
            cmd += ["--smt-option", f"smt.random_seed={seed}", "--smt-option", f"sat.random_seed={seed}"]
        cmd += ["--", "--error-format=json"]
        self.cmd = " ".join(cmd)
        rc, o, e, w = run(cmd, 500, cwd=os.path.dirname(out))
        diags = []
        for line in e.splitlines():
            if line.startswith("{"):
                try:
                    d = json.loads(line)
                except ValueError:
                    continue
                if d.get("level") == "error":
                    diags.append(d)
        try:
            res = json.loads(o[o.index("{"):])
        except ValueError:
            res = None
        return rc, res, diags, e, w

    def fn_at(self, meta, lines, exec_only=False):
        for ln in lines:
            for f in meta["fns"]:
                if f["start"] <= ln <= f["end"]:
                    return f
        return None

    def go(self):
        try:
            self._go()
        except Exception as ex:  # the machinery gives up on this unit: undecided
            self.fatal = f"{type(ex).__name__}: {ex}"

    def _go(self):
        t0 = time.time()
        work = os.path.join(BUILD, "verus")
        os.makedirs(work, exist_ok=True)
        out = os.path.join(work, self.name)
        trust = set()
        for _ in range(12):
            meta = self.extract(out, trust)
            if meta["fatal"]:
                self.fatal = "; ".join(map(str, meta["fatal"]))
                return
            new = set()
            for l in meta["lost"]:
                if l["key"] not in trust:
                    new.add(l["key"])
                    self.undecided[l["key"]] = "contract anchors lost: " + "; ".join(map(str, l["why"]))
            if new:
                trust |= new
                continue
            rc, res, diags, err, w = self.verus(out)
            self.output = err
            vr = (res or {}).get("verification-results", {})
            compile_failed = res is None or vr.get("encountered-vir-error") or (
                vr.get("encountered-error") and not vr.get("errors")) or "verified" not in vr
            if compile_failed:
                progress = False
                for d in diags:
                    lines = [s["line_start"] for s in d["spans"] if s["is_primary"]] + [s["line_start"] for s in d["spans"]]
                    f = self.fn_at(meta, lines)
                    if f and f["key"] not in trust:
                        trust.add(f["key"])
                        self.undecided[f["key"]] = "not accepted by the verifier's front end: " + d["message"][:200]
                        progress = True
                        break
                if not progress:
                    self.fatal = "verifier front end: " + ("; ".join(d["message"] for d in diags)[:1500] or err[-1500:])
                    return
                continue
            break
        else:
            self.fatal = "no extraction accepted by the verifier"
            return
        self.meta = meta
        self.own = self.own_line(out)
        self.fns = [f for f in meta["fns"] if f["start"] > self.own]
        self.verified, self.errors = vr["verified"], vr["errors"]
        self.smt_ms = res["times-ms"].get("smt", {}).get("smt-run", 0)
        lines = open(out + ".rs").read().splitlines()
        self.scan(lines)
        if self.errors:
            # More opinions, with a larger budget and other seeds: proofs must not depend on luck. What any run
            # accepts is proved; a function counts as refused when every run refuses it.
            maincmd = self.cmd
            refused = self.refused(meta, diags, lines)
            for seed in (None, 1, 2, 3):
                rc2, res2, diags2, err2, w2 = self.verus(out, rlimit=60, seed=seed)
                vr2 = (res2 or {}).get("verification-results", {})
                if "verified" not in vr2:
                    continue
                self.smt_ms += res2["times-ms"].get("smt", {}).get("smt-run", 0)
                again = self.refused(meta, diags2, lines)
                if again == refused and seed is not None:
                    break
                refused &= again
                if vr2["errors"] < self.errors:
                    self.verified, self.errors = vr2["verified"], vr2["errors"]
                diags, self.output = diags2, err2
                if not refused:
                    self.verified, self.errors = self.verified + self.errors, 0
                    break
            self.cmd = maincmd
            diags = [d for d in diags if not d["spans"] or self.where(meta, d, lines) in refused]
            self.report(meta, diags, lines)
        # canaries: every contract must be refutable once `false` is asserted in it
        maincmd = self.cmd
        cout = out + "_canary"
        cmeta = self.extract(cout, trust, canary=True)
        rc, res, cd, err, w = self.verus(cout, extra=("--multiple-errors", "30"))
        bad = set()
        for d in cd:
            for s in d["spans"]:
                bad.add(s["line_start"])
        clines = open(cout + ".rs").read().splitlines()
        own = self.own_line(cout)
        for i, l in enumerate(clines):
            if "//#canary" in l and i > own:
                self.canaries += 1
                if i + 1 in bad:
                    self.canaries_failed += 1
                else:
                    f = self.fn_at(cmeta, [i + 1])
                    self.vacuous.append(f["key"] if f else f"line {i + 1}")
        self.cmd = maincmd
        self.wall = time.time() - t0

    def own_line(self, out):
        """Where this unit's own part begins: what stands before is verified in another unit."""
        if "modules" in self.cfg:
            for i, l in enumerate(open(out + ".rs")):
                if "//#own" in l:
                    return i + 1
        return 0

    def spans(self, d):
        all_lines = []
        for s in d["spans"]:
            # a closure or multi-line span: take its lines
            all_lines.append(s["line_start"])
        # the function whose body the obligation arises in: not the callee whose
        # precondition failed. Prefer the primary span, then "at this exit".
        cand = [s["line_start"] for s in d["spans"] if s.get("label") in ("at this exit", "at the end of the function body", "at this call-site", "at this loop exit", "at this continue")]
        cand += [s["line_start"] for s in d["spans"] if s["is_primary"]]
        cand += all_lines
        return all_lines, cand

    def where(self, meta, d, lines):
        """The function an obligation arises in."""
        cand = self.spans(d)[1]
        f = self.fn_at(meta, cand)
        return f["key"] if f else "(lemma) " + self.lemma_at(lines, cand)

    def refused(self, meta, diags, lines):
        return {self.where(meta, d, lines) for d in diags if d["spans"] and not d["message"].startswith("aborting due")}

    def report(self, meta, diags, lines):
        for d in diags:
            m = d["message"]
            if m.startswith("aborting due") or not d["spans"]:
                continue
            all_lines, cand = self.spans(d)
            f = self.fn_at(meta, cand)
            labels = []
            for s in d["spans"]:
                for ln in range(s["line_start"], min(s["line_end"], s["line_start"] + 40) + 1):
                    lab = meta["labels"].get(str(ln))
                    if lab and not lab.startswith("canary"):
                        labels.append(lab)
            props = []
            for lab in labels:
                props += re.findall(r"C\d\d", lab)
            if not props and f:
                props = f["props"]
            text = " | ".join(lines[ln - 1].strip() for ln in dict.fromkeys(all_lines))
            key = f["key"] if f else "(lemma) " + self.lemma_at(lines, cand)
            rec = {"fn": key, "props": props, "message": m, "labels": labels, "clause": text, "unit": self.name,
                   "rendered": d.get("rendered", "")}
            if "rlimit" in m.lower() or "resource limit" in m.lower() or "timed out" in m.lower():
                self.undecided[key] = "solver gave up: " + m
            elif f and f.get("soft"):
                self.undecided[key] = "refused, and " + "; ".join(f["soft"]) + ": " + m
            elif f is None and not labels:
                self.undecided[key] = "lemma of the machinery not proved: " + m
            else:
                self.failures.append(rec)

    def lemma_at(self, lines, cand):
        for ln in cand:
            for i in range(ln - 1, -1, -1):
                mm = re.search(r"\bfn (\w+)", lines[i])
                if mm:
                    return mm.group(1)
        return "?"

    def scan(self, lines):
        """Every assumption left in the verified text."""
        for i, l in enumerate(lines):
            if "external_body" in l or "external_trait_specification" in l or "external_type_specification" in l:
                j = i
                while j < len(lines) and not re.search(r"\b(fn|struct|trait|enum|type)\s+\w+", lines[j]):
                    j += 1
                mm = re.search(r"\b(fn|struct|trait|enum|type)\s+(\w+)", lines[j]) if j < len(lines) else None
                ctx = ""
                self.assumed.append(f"{self.name}: {mm.group(1)} {mm.group(2)}" if mm else f"{self.name}: line {i+1}")
            mm = re.search(r"assume_specification.*\[\s*(.+?)\s*\]\s*\(", l)
            if mm:
                self.assumed.append(f"{self.name}: assumed specification of {mm.group(1)}")
            if re.search(r"\b(assume|admit)\s*\(", l.split("//")[0]):
                self.assumed.append(f"{self.name}: {l.strip()}")


# ---------------------------------------------------------------- main

EXTRACT = os.path.join(BUILD, "extract", "release", "extract")


def build_extract():
    rc, o, e, w = cargo_build(os.path.join(HERE, "tools", "extract"), os.path.join(BUILD, "extract"), None, release=True)
    return rc == 0, e


def build_harness(name, crate=None):
    crate = crate or os.path.join(HERE, "harness", name)
    rc, o, e, w = cargo_build(crate, os.path.join(BUILD, name), "1.83.0")
    return rc == 0, e


def repo_builds(crate):
    """Does /repo's own crate compile?"""
    rc, o, e, w = run(["cargo", "build", "--offline", "--quiet", "-p", crate], 600, cwd=REPO, toolchain="1.83.0",
                      extra_env={"CARGO_TARGET_DIR": os.path.join(BUILD, "probe")})
    return rc == 0, e


def end_to_end(binary, res):
    """Declarations expanded by the compiler itself: those with a mistake must be rejected (C18)."""
    rc, o, e, w = run([binary, "C18", "--seed", str(SEED), "--emit", "12000" if THOROUGH else "2000"], 60,
                      extra_env={"VX_DICT": os.path.join(BUILD, "dict.txt")})
    decls = [json.loads(l) for l in o.split("\n") if l.startswith("{")]
    if rc != 0 or not decls:
        res["notes"].append(f"end to end: no declarations (rc {rc})")
        return
    src = os.path.join(HERE, "harness", "reject")
    crate = os.path.join(BUILD, "reject")
    os.makedirs(os.path.join(crate, "src"), exist_ok=True)
    for f in ("Cargo.toml", "Cargo.lock"):
        shutil.copyfile(os.path.join(src, f), os.path.join(crate, f))
    out, spans = [], []
    for i, d in enumerate(decls):
        out.append(f"mod d{i} {{")
        a = len(out) + 1
        out += [f"#[derive(static_xml_derive::{d['derive']})]"] + d["text"].rstrip("\n").split("\n")
        spans.append((a, len(out)))
        out.append("}")
    open(os.path.join(crate, "src", "lib.rs"), "w").write("\n".join(out) + "\n")
    rc, o, e, w = run(["cargo", "build", "--offline", "--quiet", "--message-format=json"], 400, cwd=crate, toolchain="1.83.0",
                      extra_env={"CARGO_TARGET_DIR": os.path.join(BUILD, "reject-target")})
    owner = {}
    for i, (a, b) in enumerate(spans):
        for l in range(a, b + 1):
            owner[l] = i
    said, panics, seen = {}, {}, False
    for l in o.split("\n"):
        try:
            m = json.loads(l)
        except ValueError:
            continue
        m = m.get("message") if m.get("reason") == "compiler-message" else None
        if not m or m["level"] != "error":
            continue
        seen = True
        for s in m["spans"]:
            i = owner.get(s["line_start"])
            if i is not None and s["is_primary"]:
                (panics if "panicked" in m["message"] else said).setdefault(i, []).append((m["code"] or {}).get("code", ""))
    if not seen:
        res["notes"].append("end to end: the compiler gave no result: " + e[-300:])
        return
    bad, beyond = None, 0
    for i, d in enumerate(decls):
        own = [c for c in said.get(i, []) if not c]
        if i in panics:
            bad = bad or ("the macro panics (expanded by the compiler)", i, "an expansion or a compile error", "a panic")
        elif d["bad"] is None:
            beyond += bool(own)
        elif d["bad"] and not own:
            bad = bad or ("a declaration with a mistake is accepted (expanded by the compiler)", i, d["why"], "no error of the macro")
        elif not d["bad"] and own:
            bad = bad or ("a declaration without mistakes is rejected (expanded by the compiler)", i, "no error of the macro", f"{len(own)} errors")
    res["evaluations"] += len(decls)
    res["notes"].append(f"end to end: {len(decls)} declarations expanded by the compiler, {sum(bool(d['bad']) for d in decls)} of them with a mistake")
    if beyond:
        res["known"].append("syntax-beyond-syn")
    if bad and not res.get("violation"):
        d = decls[bad[1]]
        res["violation"] = {"what": bad[0], "input": f"#[derive({d['derive']})]\n{d['text']}", "expected": bad[2], "got": bad[3]}


def known_findings(prop):
    out = []
    p = os.path.join(HERE, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"KNOWN-FINDING: property=(\S+) (\S+) (.*)", l.strip())
            if m and m.group(1) == prop:
                out.append((m.group(2), m.group(3)))
    return out


def main():
    prop = sys.argv[1]
    cfg = PROPS[prop]
    t0 = time.time()
    os.makedirs(BUILD, exist_ok=True)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    ev_path = os.path.join(HERE, "evidence", prop + ".json")

    harness_ok, harness_err = {}, {}
    bounded = {}
    dict_path = os.path.join(BUILD, "dict.txt")
    words, numbers = literals.write(dict_path)

    def harness_thread(name):
        secs = cfg.get("secs", 20) * (12 if THOROUGH else 1)
        ok = False
        if name == "derive" and (words or numbers):
            # declarations that use what the code under test names; the committed ones if those do not compile
            crate = os.path.join(BUILD, "derive-words")
            shutil.rmtree(crate, ignore_errors=True)
            shutil.copytree(os.path.join(HERE, "harness", "derive"), crate)
            toml = os.path.join(crate, "Cargo.toml")
            text = open(toml).read().replace("../../corpus", os.path.join(HERE, "corpus"))
            open(toml, "w").write(text)
            corpus.with_words(os.path.join(crate, "src"), words, numbers, SEED)
            ok, err = build_harness(name, crate)
        if not ok:
            ok, err = build_harness(name)
        harness_ok[name], harness_err[name] = ok, err
        if not ok:
            return
        binary = os.path.join(BUILD, name, "debug", name + "-harness")
        rc, o, e, w = run([binary, prop, "--tier", TIER, "--seed", str(SEED), "--secs", str(secs)],
                          secs * 3 + 200, cwd=BUILD, mem_gb=8, extra_env={"VX_DICT": dict_path})
        try:
            res = json.loads(o.strip().split("\n")[-1])
        except (ValueError, IndexError):
            res = {"crash": True, "rc": rc, "out": o[-2000:], "err": e[-2000:], "evaluations": 0,
                   "distinct_nontrivial": 0, "samples": [], "known": [], "notes": [], "rule": "", "violation": None}
        if name == "macros" and not res.get("crash"):
            end_to_end(binary, res)
        if words or numbers:
            res["notes"].append(f"steered by {len(words)} words and {len(numbers)} numbers new in the code: {(words + numbers)[:12]}")
        res["wall_s"] = w
        res["cmd"] = f"{binary} {prop} --tier {TIER} --seed {SEED}"
        bounded[name] = res

    threads = [threading.Thread(target=harness_thread, args=(n,)) for n in cfg["harness"]]
    for t in threads:
        t.start()
    ok, err = build_extract()
    units = []
    if ok:
        units = [Unit(u) for u in cfg["units"]]
        ut = [threading.Thread(target=u.go) for u in units]
        for t in ut:
            t.start()
        for t in ut:
            t.join()
    for t in threads:
        t.join()

    # ------------------------------------------------------------ verdict
    failures, undecided, fns, assumed, vacuous = [], {}, [], [], []
    obligations = discharged = 0
    if not ok:
        undecided["(extractor)"] = "does not build: " + err[-500:]
    for u in units:
        if u.fatal:
            undecided[f"(unit {u.name})"] = u.fatal
            continue
        failures += [f for f in u.failures if prop in f["props"]]
        mine = [f for f in u.fns if prop in f["props"]]
        keys = {f["key"] for f in mine}
        for k, why in u.undecided.items():
            if k in keys or k.startswith("("):
                undecided[f"{u.name}::{k}"] = why
        fns += [(u.name, f) for f in mine]
        obligations += u.verified + u.errors
        discharged += u.verified
        assumed += u.assumed
        vacuous += [f"{u.name}::{k}" for k in u.vacuous]

    witness = None
    for n in cfg["harness"]:
        if not harness_ok.get(n):
            # does the crate itself still build? then what it generates or offers broke
            pr_ok, pr_err = repo_builds("static-xml-derive" if n in ("derive", "macros") else "static-xml")
            if pr_ok and n == "derive":
                witness = {"what": "types that use the derive macros as documented no longer compile",
                           "input": f"harness/{n}", "expected": "compiles", "got": harness_err.get(n, "")[-3000:]}
            else:
                undecided[f"(harness {n})"] = "does not build: " + harness_err.get(n, "")[-600:]
        elif bounded[n].get("violation"):
            witness = witness or dict(bounded[n]["violation"], harness=n, cmd=bounded[n]["cmd"])
        elif bounded[n].get("crash"):
            c = bounded[n]
            if c["rc"] is not None and c["rc"] < 0 and c["rc"] != -9 or c["rc"] in (101, 134, 139):
                witness = witness or {"what": "the process running the real code was killed",
                                      "input": c["cmd"], "expected": "a result", "got": f"exit {c['rc']}: {c['err'][-1500:]}"}
            else:
                undecided[f"(harness {n})"] = f"gave no result: rc {c['rc']} {c['err'][-300:]}"

    findings = known_findings(prop)
    listed = {k for k, _ in findings}
    for n, b in bounded.items():
        for k in b.get("known", []):
            if k not in listed:
                witness = witness or {"what": "a finding that is not listed", "input": k, "expected": "none", "got": k}
    for k, text in findings:
        print(f"KNOWN-FINDING: property={prop} {k} {text}")

    verdict = "held"
    replay = None
    suffix = ""
    if witness or failures:
        verdict = "violation"
        rd = os.path.join(HERE, "replay")
        os.makedirs(rd, exist_ok=True)
        replay = os.path.join(rd, f"{prop}.json")
        json.dump({"property": prop, "failed_obligations": [{k: f[k] for k in ("unit", "fn", "message", "clause", "labels")} for f in failures],
                   "failing_input": witness, "verifier_output": [f["rendered"] for f in failures][:20]},
                  open(replay, "w"), indent=1)
        if not witness:
            suffix = " no-failing-input-found"

    ev = {
        "property": prop, "tier": TIER, "seed": SEED, "level": cfg["level"],
        "coverage": {
            "obligations": obligations,
            "discharged": discharged,
            "obligation_unit": "one verification query per function, loop body or lemma as counted by Verus; all obligations of one function are one query",
            "checker_cmd": "; ".join(f"{u.cmd} (unit {u.name})" for u in units),
            "back_end": "Verus 0.2026.09.13 with its Z3",
            "trusted_base": sorted(set(assumed)) + cfg.get("trusted", []),
            "functions_under_contract": [f"{u}::{f['key']} ({f['src']}:{f['src_line']})" + (" ASSUMED ON THIS RUN" if f["trusted"] else "") for u, f in fns],
            "functions_proved": sum(1 for u, f in fns if not f["trusted"] and f["has_body"]),
            "solver_ms": sum(u.smt_ms for u in units),
            "canaries": sum(u.canaries for u in units),
            "canaries_refuted": sum(u.canaries_failed for u in units),
            "vacuous": vacuous,
            "undecided": undecided,
            "helpers_put_back": sorted(PUT_BACK),
            "failed_obligations": [f"{f['unit']}::{f['fn']}: {f['message']}: {f['clause'][:200]}" for f in failures],
            "bounded": [{"harness": n, "label": "bounded search on the real crate, never counted as proved",
                         "evaluations": b["evaluations"], "distinct_nontrivial": b["distinct_nontrivial"], "rule": b["rule"],
                         "samples": b["samples"], "notes": b["notes"], "wall_s": b["wall_s"]} for n, b in bounded.items()],
            "not_under_contract": cfg.get("not_covered", []),
        },
        "assumptions": cfg.get("assumptions", []),
        "wall_s": round(time.time() - t0, 1),
        "violations": 1 if verdict == "violation" else 0,
    }
    json.dump(ev, open(ev_path, "w"), indent=1)
    print(f"{prop}: {discharged}/{obligations} obligations discharged in units {', '.join(cfg['units'])}; "
          f"{len(failures)} refused for this property; undecided: {len(undecided)}; "
          f"bounded: {sum(b['evaluations'] for b in bounded.values())} evaluations; {ev['wall_s']} s")
    for k, w in undecided.items():
        say(f"  undecided (bounded search stands in): {k}: {w[:300]}")
    for f in failures[:10]:
        say(f"  refused: {f['unit']}::{f['fn']}: {f['message']}: {f['clause'][:300]}")
    if vacuous:
        print("  vacuous contracts:", ", ".join(vacuous))
    if witness:
        say(f"  failing input: {witness['input'][:600]}\n    {witness['what']}\n    expected: {witness['expected'][:600]}\n    got:      {witness['got'][:600]}")
    if verdict == "violation":
        print(f"VIOLATION property={prop} replay={replay}{suffix}")
        return 1
    return 0


if __name__ == "__main__":
    try:
        sys.exit(main())
    except SystemExit:
        raise
    except BaseException as ex:  # never an error exit
        import traceback
        traceback.print_exc()
        print("the machinery failed; nothing decided")
        sys.exit(2)
