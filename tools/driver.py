#!/usr/bin/env python3
"""Check one property:  driver.py PROP [--tier quick|thorough]

1. weave the contracts of /verif/specs into a copy of /repo/src (tools: /verif/weave)
2. verify the copy with Verus: every obligation of every function under contract for PROP
3. run the differential harness on the real crate (bounded; validates what the contracts assume)
See DESIGN.md for what the outcomes mean.
"""
import concurrent.futures, glob, json, os, re, resource, subprocess, sys, threading, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(VERIF, "tools"))
import mine

BUILD = os.path.join(VERIF, ".build")
TOOLCHAIN = "+1.98.1"
ENV = dict(os.environ, CARGO_NET_OFFLINE="true")
ENV.pop("RUSTFLAGS", None)
EXTERNS = ["hyper", "http", "serde", "serde_json", "url", "async_std", "tokio", "async_trait", "colored"]
RLIMIT = "60"

# bounded stand-ins: what the harness explores, per property
HARNESS_SECS = {"quick": 6, "thorough": 150}
# searching longer for a failing input once an obligation has failed
EXTRA_SECS = {"quick": 60, "thorough": 150}


def sh(cmd, cwd=None, env=None, timeout=None):
    return subprocess.run(cmd, cwd=cwd, env=env or ENV, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                          text=True, timeout=timeout)


class Result:
    pass


def build_weaver():
    r = sh(["cargo", TOOLCHAIN, "build", "-q", "--offline", "--locked", "--target-dir", f"{BUILD}/wt"], cwd=f"{VERIF}/weave")
    if r.returncode != 0:
        raise RuntimeError("cannot build the weaver:\n" + r.stderr[-3000:])


def build_harness():
    """builds /repo's crate, its dependencies and the harness; returns the rlibs of the dependencies"""
    r = sh(["cargo", TOOLCHAIN, "build", "--offline", "--target-dir", f"{BUILD}/ht", "--message-format=json"], cwd=f"{VERIF}/harness")
    libs = {}
    for line in r.stdout.splitlines():
        if not line.startswith("{"):
            continue
        m = json.loads(line)
        if m.get("reason") == "compiler-artifact" and m["target"]["name"].replace("-", "_") in EXTERNS:
            n = m["target"]["name"].replace("-", "_")
            for f in m["filenames"]:
                if f.endswith(".rlib") or f.endswith(".so"):
                    libs[n] = f
    return r, libs


def build_deps_only():
    """the dependencies alone, when the crate itself does not compile"""
    return {}


def weave(prop, out, report, vacuity=False, src=f"{REPO}/src", skip=(), more=False):
    sh(["rm", "-rf", out])
    os.makedirs(out)
    env = dict(ENV, WEAVE_SKIP=",".join(sorted(skip)))
    if vacuity:
        env["WEAVE_VACUITY"] = "1"
    if more:
        env["WEAVE_EXTRA"] = "1"
    return sh([f"{BUILD}/wt/debug/weave", "--src", src, "--specs", f"{VERIF}/specs", "--out", out,
               "--prop", prop, "--report", report], env=env)


def verus_cmd(libs, extra=()):
    cmd = ["verus", "--crate-type", "lib", "--crate-name", "obsidian", "--edition", "2018", "lib.rs",
           "-L", f"dependency={BUILD}/ht/debug/deps"]
    for n in EXTERNS:
        if n in libs:
            cmd += ["--extern", f"{n}={libs[n]}"]
    return cmd + ["--triggers-mode", "silent", "--rlimit", RLIMIT, "--output-json", "--time",
                  "--error-format=json", "--num-threads", "6"] + list(extra)


VERIFY_MSG = re.compile(
    r"postcondition not satisfied|precondition not satisfied|invariant not satisfied|assertion failed|assertion not satisfied"
    r"|possible arithmetic|decreases not satisfied|could not prove termination|possible division|loop ensures not satisfied"
    r"|recommendation not met|unable to prove|not satisfied|failed|possible bit|index out of bounds")
LIMIT_MSG = re.compile(r"Resource limit|rlimit|timed out|solver", re.I)


def run_verus(libs, cwd, report, extra=()):
    env = dict(ENV, CARGO_PKG_VERSION="0.3.0")
    t = time.time()
    try:
        p = sh(verus_cmd(libs, extra), cwd=cwd, env=env, timeout=600)
    except subprocess.TimeoutExpired:
        r = Result()
        r.ok, r.verified, r.errors, r.failed, r.broken, r.raw, r.wall, r.smt = False, 0, 0, [], ["verifier timed out"], "", time.time() - t, 0
        r.nothing = False
        return r
    r = Result()
    r.wall = time.time() - t
    r.raw = p.stderr
    r.failed, r.broken = [], []
    smt = 0
    try:
        j = json.loads(p.stdout[p.stdout.index("{"):])
        v = j.get("verification-results", {})
        smt = j.get("times-ms", {}).get("smt", {}).get("total", 0)
        r.verified, r.errors = v.get("verified", 0), v.get("errors", 0)
        r.ok = bool(v.get("success")) and r.errors == 0
        vir = v.get("encountered-vir-error") or "verified" not in v
    except (ValueError, json.JSONDecodeError):
        r.verified, r.errors, r.ok, vir = 0, 0, False, True
    r.smt = smt
    maps = {}
    try:
        for rep in json.load(open(report)):
            maps[rep["file"]] = rep["map"]
    except OSError:
        pass
    for line in p.stderr.splitlines():
        if not line.startswith("{"):
            continue
        m = json.loads(line)
        if m.get("level") != "error" or m["message"].startswith("aborting due"):
            continue
        where = []
        for s in m.get("spans", []):
            f = s["file_name"]
            txt = " ".join(x["text"].strip() for x in s.get("text", [])[:2])[:160]
            sl = spec_line(maps.get(f), s["line_start"])
            where.append({"file": f, "line": s["line_start"], "contract": f"specs/{f[:-3]}.spec:{sl}" if sl else None,
                          "label": s.get("label"), "text": txt, "primary": s.get("is_primary")})
        item = {"obligation": name_of(m["message"], where, cwd), "message": m["message"], "where": where,
                "fn": fn_of(where, cwd),
                "rendered": (m.get("rendered") or "")[:2500]}
        if LIMIT_MSG.search(m["message"]):
            r.broken.append(item)
        elif VERIFY_MSG.search(m["message"]) and not m.get("code"):
            r.failed.append(item)
        else:
            r.broken.append(item)
    if vir and not r.failed and not r.broken:
        r.broken.append({"obligation": "verifier did not finish", "message": p.stderr[-1500:], "where": [], "rendered": ""})
    r.nothing = vir
    if vir:
        # nothing was decided
        r.broken += r.failed
        r.failed = []
    return r


def spec_line(m, line):
    for a, b, s in m or []:
        if a <= line < b and s:
            return s + (line - a) - (1 if line > a else 0)
    return None


def name_of(msg, where, cwd):
    prim = [w for w in where if w["primary"]] or where[:1]
    if not prim:
        return msg
    w = prim[0]
    body = [x for x in where if x["label"] and "function body" in x["label"]]
    if body and body[0] is not w:
        return f"{enclosing(cwd, body[0]['file'], body[0]['line'])}: {msg}: `{w['text']}`"
    return f"{enclosing(cwd, w['file'], w['line'])}: {msg}: `{w['text']}`"


def fn_of(where, cwd):
    """the function an error lies in, as `file:name`"""
    prim = [w for w in where if w["label"] and "function body" in w["label"]] or [w for w in where if w["primary"]] or where[:1]
    if not prim:
        return None
    return f"{prim[0]['file']}:{enclosing(cwd, prim[0]['file'], prim[0]['line']).split('::')[-1]}"


def decide(prop, libs, out, report):
    """Verus on the woven source. Where it cannot read a body, the contracts of specs/extra.rs (library functions which
    the unchanged source does not use) are added first; a body it still cannot read is left out and its contract
    assumed, so that everything else is still decided. Failures which may only be due to a hint that found no place
    any more are not counted."""
    skip = set()
    notes = []
    first = None
    more = False
    for _ in range(5):
        w = weave(prop, out, report, skip=skip, more=more)
        if w.returncode != 0:
            return None, ["proof not re-established: " + ((w.stdout + w.stderr).strip() or "weaving failed")[-600:]], skip
        reps = json.load(open(report))
        ver = run_verus(libs, out, report)
        if ver.nothing and not more:
            more = True
            continue
        known = {f"{r['file']}:{f.split('::')[-1]}" for r in reps for f in r["functions"]}
        unread = {b["fn"] for b in ver.broken if isinstance(b, dict) and b.get("fn") in known and not LIMIT_MSG.search(b["message"])}
        if first is None or not ver.nothing:
            for b in ver.broken:
                notes.append((b if isinstance(b, str) else b["obligation"])[:300])
        first = first or ver
        if not ver.nothing or not unread:
            break
        skip |= unread
    lost = []
    for r in reps:
        lost += r["missing"]
        for fn, at in r["dropped"]:
            mine = f"{r['file']}:{fn.split('::')[-1]}"
            hit = [f for f in ver.failed if f["fn"] == mine]
            if hit:
                lost.append(f"{r['file']}: {fn}: {at}")
                ver.broken += hit
                ver.failed = [f for f in ver.failed if f["fn"] != mine]
    ver.failed += frame(prop, report, reps)
    if lost:
        notes.append("hints without a place: " + "; ".join(lost[:3]))
    if skip:
        notes.append("bodies left out: " + ", ".join(sorted(skip)))
    return ver, (["proof not re-established: " + "; ".join(notes[:4])] if notes else []), skip


def frame(prop, report, reps):
    """the frame of every contract: the result depends on the arguments alone. Functions which reach state that outlives the
    call (statics, cells, locks, the environment) fail it; for C20, which is about exactly this, wherever they are."""
    source = {}
    for d, _, fs in os.walk(f"{VERIF}/specs"):
        for f in fs:
            if f.endswith(".spec"):
                rel = os.path.relpath(os.path.join(d, f), f"{VERIF}/specs")[:-5] + ".rs"
                for m in re.finditer(r"(?m)^//@extract (\w+) from (.*)$", open(os.path.join(d, f)).read()):
                    source[rel, m.group(1)] = re.split(r"::", m.group(2).split(" closure")[0])[-1].strip()
    mine = set()
    for r in reps:
        for f in r["functions"]:
            n = f.split("::")[-1]
            mine.add((r["file"], source.get((r["file"], n), n)))
    out = []
    for f, n, what in json.load(open(report + ".state")):
        if prop == "C20" or (f, n) in mine:
            out.append({"obligation": f"{f[:-3].replace('/', '::')}::{n}: frame: the result depends on the arguments alone: `{what}`",
                        "message": "state outside of the contracts", "where": [{"file": f, "line": 0}], "fn": f"{f}:{n}", "rendered": what})
    return out


def enclosing(cwd, f, line):
    try:
        lines = open(os.path.join(cwd, f)).read().split("\n")
    except OSError:
        return f
    for i in range(min(line, len(lines)) - 1, -1, -1):
        m = re.search(r"\bfn\s+(\w+)", lines[i])
        if m and not lines[i].strip().startswith("//"):
            return f"{f[:-3].replace('/', '::')}::{m.group(1)}"
    return f


def bodies(text, name):
    """the functions of this name which have a body"""
    for m in re.finditer(r"\bfn\s+" + re.escape(name) + r"\b", text):
        depth, i = 0, m.end()
        while i < len(text):
            if text[i] == ";" and depth == 0:
                break
            depth += {"{": 1, "}": -1}.get(text[i], 0)
            i += 1
            # the blocks of the contract are followed by a comma
            if text[i - 1] == "}" and depth == 0 and not re.match(r"\s*[,);&|=]", text[i:i + 40]):
                break
        body = text[m.start():i]
        if "unimplemented!()" not in body[-40:]:
            yield body


def trusted(out, fns):
    """mechanical scan of what the verifier is told to believe, as far as the woven source of this run uses it"""
    found, opaque, files = [], [], {}
    for d, _, fs in os.walk(out):
        for f in sorted(fs):
            if f.endswith(".rs"):
                rel = os.path.relpath(os.path.join(d, f), out)
                files[rel] = open(os.path.join(d, f)).read()
    ghost = "\n".join(re.sub(r"(?ms)^#\[cfg\(test\)\].*?^}", "", t) for f, t in files.items() if f != "vshim.rs")
    code = "\n".join(t for f, n in fns for t in bodies(files.get(f, ""), n))
    shim = files.get("vshim.rs", "")

    def used(name, extra=""):
        pat = re.compile(r"(?<!fn )(?<!struct )\b" + re.escape(name) + r"\b")
        return bool(pat.search(code) or pat.search(extra))

    for rel, t in files.items():
        for m in re.finditer(r"assume_specification\s*(?:<[^\[]*>)?\s*\[\s*([^\]]+?)\s*\]", t):
            name = re.split(r"::", re.sub(r"::<[^>]*>$", "", " ".join(m.group(1).split())))[-1]
            if used(name):
                found.append(f"assumed contract of {' '.join(m.group(1).split())}")
        for m in re.finditer(r"axiom\s+fn\s+(\w+)", t):
            if used(m.group(1), shim + ghost):
                found.append(f"axiom {m.group(1)}")
        for m in re.finditer(r"#\[verifier::external_body\]\s*(?:#\[[^\]]*\]\s*)*(?:pub\s+)?(?:async\s+)?(fn|struct|proof fn)\s+(\w+)", t):
            if m.group(1) == "struct":
                opaque.append(m.group(2))
            elif used(m.group(2)):
                found.append(f"{rel}: external_body {m.group(1)} {m.group(2)}")
        for m in re.finditer(r"#\[verifier::external_body\] /\* assumed \*/\s*(?:#\[[^\]]*\]\s*)*(?:pub\s+)?(?:async\s+)?fn\s+(\w+)", t):
            if used(m.group(1)):
                found.append(f"{rel}: {m.group(1)}: contract assumed here, its body is verified by the check of another property")
        for m in re.finditer(r"\b(assume|admit)\s*\(", t):
            found.append(f"{rel}: {m.group(1)}")
        for m in re.finditer(r"#\[verifier::exec_allows_no_decreases_clause\]", t):
            found.append(f"{rel}: a loop without termination proof")
    found = sorted(set(found))
    if opaque:
        found.append("types whose contents the verifier does not see: " + ", ".join(sorted(set(opaque))))
    return found


def git_head():
    return sh(["git", "-C", REPO, "rev-parse", "--short", "HEAD"]).stdout.strip()


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    conf = json.load(open(f"{VERIF}/tools/props.json"))[prop]
    t0 = time.time()
    os.makedirs(f"{VERIF}/evidence", exist_ok=True)
    os.makedirs(f"{BUILD}/run", exist_ok=True)
    replay = f"{BUILD}/run/{prop}.replay.json"

    build_out = {}
    th = threading.Thread(target=lambda: build_out.update(zip(("r", "libs"), build_harness())))
    th.start()
    build_weaver()
    out, report = f"{BUILD}/run/{prop}", f"{BUILD}/run/{prop}.report.json"
    th.join()
    hb, libs = build_out["r"], build_out["libs"]
    if hb.returncode != 0:
        print(hb.stderr[-3000:], file=sys.stderr)
        print(f"{prop}: /repo or the harness does not build", file=sys.stderr)
        sys.exit(2)

    hres = {}
    dictionary = f"{BUILD}/run/{prop}.dict.json"
    mined = mine.mine(f"{REPO}/src", dictionary)

    def run_harness(seed=seed, secs=conf.get("secs", {}).get(tier, HARNESS_SECS[tier]), n=3):
        hres.update(harnesses(prop, seed, secs, tier, dictionary, n))

    ht = threading.Thread(target=run_harness)
    ht.start()
    vac = None
    ver, notes, skip = decide(prop, libs, out, report)
    if ver and ver.ok and not notes:
        vac = vacuity(prop, libs)
        if vac["bad"]:
            notes.append("contradictory precondition: " + ", ".join(vac["bad"]))
    ht.join()
    if (notes or (ver and ver.failed)) and hres.get("out") and not hres["out"].get("failure"):
        # the verifier has not settled it: look longer
        run_harness(seed + 7919, EXTRA_SECS[tier], 6)

    failing = hres.get("out") and hres["out"].get("failure")
    if hres.get("out") is None:
        print(hres.get("err"), file=sys.stderr)
        print(f"{prop}: the harness did not finish", file=sys.stderr)
        sys.exit(2)
    if vac and vac["bad"]:
        print(f"{prop}: {notes}", file=sys.stderr)
        sys.exit(2)

    failed = ver.failed if ver else []
    write_evidence(prop, tier, seed, conf, ver, vac, hres, mined, notes, report, out, failed, failing, time.time() - t0)
    for k in known_findings(prop):
        print(f"KNOWN-FINDING: property={prop} {k}")
    for n in notes:
        print(f"NOTE {prop}: {n}")
    if ver and ver.ok:
        print(f"{prop}: {ver.verified} obligations groups discharged by Verus, 0 failed")
    h = hres["out"]
    print(f"{prop}: harness (bounded): {h['enumerated']} enumerated and {h['random']} random cases")
    if failed or failing:
        doc = {
            "property": prop, "repo": git_head(), "failed_obligations": failed,
            "case": failing["case"] if failing else None,
            "error": failing["error"] if failing else None,
            "how_to_replay": f"{BUILD}/ht/debug/harness {prop} --replay {replay}" if failing else
            "no failing input found; the obligations above were discharged on the unchanged tree and fail now",
            "seed": seed,
        }
        json.dump(doc, open(replay, "w"), indent=1, ensure_ascii=False)
        for f in failed[:8]:
            print(f"{prop}: FAILED OBLIGATION {f['obligation']}")
        if failing:
            print(f"{prop}: FAILING INPUT {failing['error']}")
        print(f"VIOLATION property={prop} replay={replay}" + ("" if failing else " no-failing-input-found"))
        sys.exit(1)
    sys.exit(0)


def vacuity(prop, libs):
    """every function under contract must be able to run: `assert(false)` at its start has to fail"""
    out, report = f"{BUILD}/run/{prop}.vac", f"{BUILD}/run/{prop}.vac.json"
    w = weave(prop, out, report, vacuity=True)
    res = {"probes": 0, "failing": 0, "bad": []}
    if w.returncode != 0:
        return res
    probes = []
    for rep in json.load(open(report)):
        res["probes"] += rep["rewrites"].get("vacuity probe", 0)
        f = rep["file"]
        for i, l in enumerate(open(f"{out}/{f}").read().split("\n"), 1):
            if "// vacuity" in l:
                probes.append((f, i))
    r = run_verus(libs, out, report, ["--multiple-errors", "0"])
    hit = set()
    for x in r.failed + [b for b in r.broken if isinstance(b, dict)]:
        for wh in x["where"]:
            hit.add((wh["file"], wh["line"]))
    res["failing"] = sum(1 for p in probes if p in hit)
    res["bad"] = [enclosing(out, f, l) for f, l in probes if (f, l) not in hit]
    if r.verified == 0 and r.errors == 0:
        res["bad"] = []
        res["note"] = "not run"
    sh(["rm", "-rf", out])
    return res


def limits(k=0):
    # a runaway case must not take the machine with it
    m = (12 << 30) if k == 0 else (8 << 30)
    resource.setrlimit(resource.RLIMIT_AS, (m, m))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def harnesses(prop, seed, secs, tier, dictionary, n):
    """n runs side by side, with different random cases; only the first runs the enumerated ones"""
    with concurrent.futures.ThreadPoolExecutor(n) as ex:
        rs = list(ex.map(lambda k: harness(prop, seed + 104729 * k, secs, tier, dictionary, k), range(n)))
    done = [r for r in rs if r.get("out")]
    best = next((r for r in done if r["out"].get("failure")), rs[0])
    if best.get("out"):
        out = dict(best["out"])
        for k in ["enumerated", "random", "over_the_wire_cases", "inconclusive"]:
            out[k] = sum(r["out"].get(k, 0) for r in done)
        out["domains"] = max((r["out"]["domains"] for r in done), key=len)
        best = dict(best, out=out)
    return best


def harness(prop, seed, secs, tier, dictionary, k):
    """one run of the harness; a run which dies is repeated with a trace, and the case it died of is confirmed"""
    o, tr = f"{BUILD}/run/{prop}.harness.{k}.json", f"{BUILD}/run/{prop}.trace.{k}.json"
    env = dict(ENV, HARNESS_DICT=dictionary, MALLOC_ARENA_MAX="2")
    res = {}
    for trace in [False, True]:
        sh(["rm", "-f", o, tr])
        cmd = [f"{BUILD}/ht/debug/harness", prop, "--seed", str(seed), "--secs", str(secs), "--depth", tier, "--out", o]
        if k > 0:
            cmd.append("--random-only")
        p = subprocess.Popen(cmd + (["--trace", tr] if trace else []), env=env, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE,
                             text=True, preexec_fn=lambda: limits(k))
        try:
            _, err = p.communicate(timeout=700)
            res["rc"], res["err"] = p.returncode, err[-2000:]
        except subprocess.TimeoutExpired:
            p.kill()
            p.communicate()
            res["rc"], res["err"] = 124, "timeout"
        for d in glob.glob(f"/tmp/obsidian-static-{p.pid}"):
            sh(["rm", "-rf", d])
        try:
            res["out"] = json.load(open(o))
            return res
        except (OSError, ValueError):
            res["out"] = None
        if res["rc"] == 124:
            return res
    try:
        case = json.load(open(tr))["case"]
    except (OSError, ValueError):
        return res
    f = f"{BUILD}/run/{prop}.died.{k}.json"
    json.dump({"case": case}, open(f, "w"))
    r = subprocess.run([f"{BUILD}/ht/debug/harness", prop, "--replay", f], env=env, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE,
                       text=True, preexec_fn=limits, timeout=200)
    if r.returncode not in (0, 1):
        res["out"] = {"enumerated": 0, "random": 0, "over_the_wire_cases": 0, "domains": [], "seconds": 0, "unstable": False,
                      "failure": {"case": case, "error": f"the process dies ({r.returncode}): " + r.stderr.strip()[-300:]}}
    return res


def known_findings(prop):
    """the listed findings which still fail: `finding: property=<id> <what fails> case=<json>`"""
    out = []
    try:
        lines = open(f"{VERIF}/known-findings.txt").read().splitlines()
    except OSError:
        return out
    for l in lines:
        m = re.match(r"finding: property=(\S+) (.*) case=(\{.*\})$", l.strip())
        if m and m.group(1) == prop:
            f = f"{BUILD}/run/{prop}.known.json"
            json.dump({"case": json.loads(m.group(3))}, open(f, "w"))
            if sh([f"{BUILD}/ht/debug/harness", prop, "--replay", f], timeout=60).returncode == 1:
                out.append(f"{m.group(2)} case={m.group(3)}")
    return out


def write_evidence(prop, tier, seed, conf, ver, vac, hres, mined, notes, report, out, failed, failing, wall):
    fns, rewrites = [], {}
    if os.path.exists(report):
        for rep in json.load(open(report)):
            fns += [f"src/{rep['file']}: {f}" for f in rep["functions"]]
            for k, v in rep["rewrites"].items():
                rewrites[k] = rewrites.get(k, 0) + v
    h = hres["out"]
    proved = bool(ver and not ver.broken and not notes)
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "proof" if proved else "other",
        "coverage": {
            "explanation": "obligations of the contracts discharged by the verifier" if proved else
            "the proof was not re-established on this source; what was explored is bounded, see bounded_stand_in",
            "obligations": (ver.verified + ver.errors) if ver else 0,
            "discharged": ver.verified if ver else 0,
            "obligation_unit": "functions, loops and lemmas as counted by Verus; each stands for all verification conditions generated from its body and contract",
            "proof_established": bool(proved and ver.ok),
            "functions_under_contract": fns,
            "failed_obligations": [f["obligation"] for f in failed],
            "back_end": "Verus 0.2026.09.13 (Z3)",
            "solver_ms": ver.smt if ver else 0,
            "verifier_wall_s": round(ver.wall, 2) if ver else 0,
            "vacuity_probes": vac,
            "extraction_rewrites": rewrites,
            "checker_cmd": "verus --crate-type lib lib.rs (woven copy of /repo/src, see tools/driver.py)",
            "trusted_base": trusted(out, [(f.split(": ")[0][4:], f.split(": ")[1].split("::")[-1]) for f in fns]) if os.path.isdir(out) else [],
            "bounded_stand_in": {
                "label": "bounded, not counted as proved",
                "covers": conf.get("bounded", ""),
                "enumerated_cases": h["enumerated"], "random_cases": h["random"], "domains": h["domains"],
                "over_the_wire_cases": h["over_the_wire_cases"],
                "cases_the_machine_spoiled": h.get("inconclusive", 0), "seconds": round(h["seconds"], 2),
                "dictionary": {"texts": mined[0], "numbers": mined[1]},
            },
        },
        "assumptions": conf.get("assumptions", []) + notes,
        "wall_s": round(wall, 2),
        "violations": 1 if (failed or failing) else 0,
    }
    json.dump(ev, open(f"{VERIF}/evidence/{prop}.json", "w"), indent=1, ensure_ascii=False)


if __name__ == "__main__":
    try:
        main()
    except SystemExit:
        raise
    except Exception as e:
        import traceback
        traceback.print_exc()
        sys.exit(2)
