#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]   decide one property
check.py --build                     build everything the checks need

Builds the symbolic executor, the LLVM IR of the harness crate, of cddl-cat as
it stands in /repo, of its dependencies and of std; runs the executor over the
property's entry points; replays every counterexample, and a sample of the
explored paths, on the natively compiled crate.
exit 0: held on everything explored; 1: VIOLATION; 2: no answer."""
import fcntl, glob, hashlib, json, os, re, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
BUILD = os.path.join(HERE, "build")
REPO = "/repo"
EVID = os.path.join(HERE, "evidence")
TRIPLE = "x86_64-unknown-linux-gnu"
CRATES = """cddl_cat ciborium ciborium_io ciborium_ll half nom hex base64 escape8259 itoa memchr minimal_lexical
regex regex_automata regex_syntax aho_corasick serde serde_core serde_json zmij float_ord harness""".split()
STD = "core alloc std hashbrown memchr std_detect".split()

ENV = dict(os.environ)
ENV.update(RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never",
           RUST_BACKTRACE="0", CARGO_INCREMENTAL="0")
ENV["PATH"] = "/root/.cargo/bin:" + ENV.get("PATH", "")
for k in ("RUSTC_WRAPPER", "RUSTFLAGS", "CARGO_TARGET_DIR", "CARGO_PROFILE_DEV_DEBUG", "CARGO_ENCODED_RUSTFLAGS"):
    ENV.pop(k, None)


class NoAnswer(Exception):
    pass


def sh(cmd, env=None, cwd=None, timeout=800):
    r = subprocess.run(cmd, env=env or ENV, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    if r.returncode != 0:
        raise NoAnswer("%s failed:\n%s" % (" ".join(cmd[:6]), r.stdout.decode(errors="replace")[-3000:]))
    return r.stdout.decode(errors="replace")


def tree_hash(*roots):
    h = hashlib.sha256()
    for root in roots:
        if os.path.isfile(root):
            files = [root]
        else:
            files = []
            for d, ds, fs in os.walk(root):
                ds[:] = sorted(x for x in ds if x not in ("target", ".git"))
                files += [os.path.join(d, f) for f in sorted(fs)]
        for f in files:
            h.update(f.encode() + b"\0")
            with open(f, "rb") as fh:
                h.update(fh.read())
    return h.hexdigest()


def stamp(name, value=None):
    p = os.path.join(BUILD, name + ".stamp")
    if value is None:
        try:
            return open(p).read()
        except OSError:
            return ""
    open(p, "w").write(value)


def build_engine():
    h = tree_hash(os.path.join(HERE, "engine"))
    exe = os.path.join(BUILD, "engine/release/symex")
    if stamp("engine") == h and os.path.exists(exe):
        return
    e = dict(ENV, CARGO_TARGET_DIR=os.path.join(BUILD, "engine"))
    if os.path.exists(exe):
        os.utime(os.path.join(HERE, "engine/src/main.rs"))
    sh(["cargo", "build", "--offline", "--release", "-q"], e, os.path.join(HERE, "engine"))
    stamp("engine", h)


def build_std():
    """The IR of std is the bitcode shipped inside the toolchain's rlibs."""
    sysroot = sh(["rustc", "--print", "sysroot"]).strip()
    base = os.path.join(sysroot, "lib/rustlib", TRIPLE)
    out = os.path.join(BUILD, "std_ll")
    h = sysroot + sh(["rustc", "-V"]) + "3"
    if stamp("std") == h and all(os.path.exists("%s/%s.ll" % (out, c)) for c in STD):
        return
    os.makedirs(out, exist_ok=True)

    def one(c):
        rl = glob.glob("%s/lib/lib%s-*.rlib" % (base, c))
        if not rl:
            raise NoAnswer("no rlib for " + c)
        d = os.path.join(out, c + ".d")
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        sh([base + "/bin/llvm-ar", "x", rl[0]], cwd=d)
        objs = sorted(glob.glob(d + "/*.o"))
        for i, o in enumerate(objs):
            bc = "%s/%d.bc" % (d, i)
            sh([base + "/bin/llvm-objcopy", "--dump-section", ".llvmbc=" + bc, o, "/dev/null"])
        bcs = sorted(glob.glob(d + "/*.bc"))
        if len(bcs) == 1:
            one_bc = bcs[0]
        else:
            one_bc = d + "/all.bc"
            sh([base + "/bin/llvm-link", "-o", one_bc] + bcs)
        sh([base + "/bin/llvm-dis", "-o", "%s/%s.ll" % (out, c), one_bc])
        shutil.rmtree(d, ignore_errors=True)

    with ThreadPoolExecutor(6) as ex:
        list(ex.map(one, STD))
    stamp("std", h)


def build_harness():
    repo = tree_hash(REPO + "/src", REPO + "/Cargo.toml")
    h = repo + tree_hash(os.path.join(HERE, "harness"))
    rep = os.path.join(BUILD, "h", TRIPLE, "debug/replay")
    if stamp("harness") == h and os.path.exists(rep):
        return
    # cargo goes by mtimes; the hash does not: drop what may be stale
    if os.path.isdir(os.path.join(BUILD, "h")):
        deps = os.path.join(BUILD, "h", TRIPLE, "debug")
        for pat in ("deps/*cddl_cat-*", "deps/*harness-*", "deps/replay-*", ".fingerprint/cddl-cat-*", ".fingerprint/harness-*", "replay"):
            for f in glob.glob(os.path.join(deps, pat)):
                shutil.rmtree(f) if os.path.isdir(f) else os.remove(f)
    e = dict(ENV, CARGO_TARGET_DIR=os.path.join(BUILD, "h"), RUSTFLAGS="--emit=llvm-ir,link -C no-vectorize-loops -C no-vectorize-slp")
    lock = os.path.join(HERE, "harness/Cargo.lock")
    sh(["cargo", "build", "--offline", "-q", "--lib", "--bin", "replay", "--target", TRIPLE], e, os.path.join(HERE, "harness"))
    stamp("harness", repo + tree_hash(os.path.join(HERE, "harness")))


def build():
    os.makedirs(BUILD, exist_ok=True)
    t0 = time.time()
    with ThreadPoolExecutor(3) as ex:
        for f in [ex.submit(x) for x in (build_harness, build_engine, build_std)]:
            f.result()
    return time.time() - t0


def ll_files():
    out = []
    for c in CRATES:
        f = sorted(glob.glob(os.path.join(BUILD, "h", TRIPLE, "debug/deps/%s-*.ll" % c)), key=os.path.getmtime)
        if not f:
            raise NoAnswer("no IR for crate " + c)
        out.append(f[-1])
    return out + [os.path.join(BUILD, "std_ll", c + ".ll") for c in STD]


def table():
    r = sh([os.path.join(BUILD, "h", TRIPLE, "debug/replay"), "--list"])
    return [json.loads(l) for l in r.splitlines() if l.strip()]


def replay(entry, values, path, timeout=20):
    """Natively: (outcome, observations, notes)."""
    with open(path, "w") as f:
        f.write("\n".join(values) + "\n")
    exe = os.path.join(BUILD, "h", TRIPLE, "debug/replay")
    try:
        r = subprocess.run([exe, entry, path], env=ENV, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout)
    except subprocess.TimeoutExpired:
        return "hang", [], []
    out = r.stdout.decode(errors="replace").splitlines()
    obs = [l[4:] for l in out if l.startswith("OBS ")]
    notes = [l[5:] for l in out if l.startswith("NOTE ")]
    if r.returncode == 0 and "DONE" in out:
        return "done", obs, notes
    if r.returncode == 3:
        return "assert " + [l for l in out if l.startswith("ASSERT-FAILED ")][-1][14:], obs, notes
    if r.returncode < 0:
        err = r.stderr.decode(errors="replace").strip().replace("\n", " ")[:300]
        return "abort " + err, obs, notes
    return "misfit " + (out[-1] if out else ""), obs, notes


def demangle(names):
    try:
        r = subprocess.run(["c++filt", "--format=rust"], input="\n".join(names).encode(), stdout=subprocess.PIPE)
        return r.stdout.decode().splitlines()
    except OSError:
        return names


def known_findings(prop):
    """Lines `known: property=ID entry=E id=A inputs=v,v,... what` (inputs identify the failing call)."""
    out = []
    try:
        for l in open(os.path.join(HERE, "known-findings.txt")):
            m = re.match(r"known: property=(\S+) entry=(\S+) id=(\S+) note=(\S+) (.*)", l)
            if m and m.group(1) == prop:
                out.append(dict(entry=m.group(2), id=m.group(3), note=m.group(4), what=m.group(5)))
    except OSError:
        pass
    return out


def run(prop, tier):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    build_s = build()
    ents = [e for e in table() if e["prop"] == prop and (tier == "thorough" or e["tier"] == "q")]
    if not ents:
        raise NoAnswer("no entries for " + prop)
    budget = 560 if tier == "quick" else 3 * 3600
    out = os.path.join(BUILD, "out_%s.json" % prop)
    if os.path.exists(out):
        os.remove(out)
    cmd = [os.path.join(BUILD, "engine/release/symex"), out, "--time", str(budget), "--jobs", "8", "--samples", "8"]
    for e in ents:
        cmd += ["--entry", e["name"]]
    r = subprocess.run(cmd + ll_files(), env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=budget + 200)
    if r.returncode != 0 or not os.path.exists(out):
        raise NoAnswer("symex failed: " + r.stdout.decode(errors="replace")[-2000:])
    d = json.load(open(out))
    parts = d["parts"]
    tot = {k: sum(p[k] for p in parts) for k in ("done", "infeasible", "panic", "hang", "overflow", "left", "forks", "instrs", "asserts",
                                               "assert_queries", "tt", "queries", "cache_hits", "solver_ns", "nodes")}
    paths, reach, errors, called = {}, {}, {}, {}
    for p in parts:
        for src, dst in (("paths", paths), ("reach", reach), ("errors", errors)):
            for k, v in p[src].items():
                dst[k] = dst.get(k, 0) + v
        for k, v in p["called"].items():
            c = called.setdefault(k, [0, v[1]])
            c[0] += v[0]
    fails = [f for p in parts for f in p["failures"]]
    # native replay of every counterexample
    tmp = os.path.join(BUILD, "replay_%s.txt" % prop)
    viols, ghosts, known = [], [], {}
    for f in fails:
        if len(viols) >= 5:
            break
        vals = [x[2] for x in f["inputs"]]
        oc, obs, notes = replay(f["entry"], vals, tmp)
        good = (oc.startswith("assert") and f["kind"] == "assert") or (oc.startswith("abort") and f["kind"] in ("panic", "overflow", "assert")) \
            or (oc == "hang" and f["kind"] in ("hang", "overflow")) or (oc.startswith("abort") and f["kind"] == "hang") \
            or (oc.startswith("assert") and f["kind"] in ("panic", "hang", "overflow"))
        if not good:
            ghosts.append((f, oc))
            continue
        k = next((k for k in known_findings(prop) if k["entry"] == f["entry"] and k["id"] in (f["id"], f["kind"]) and k["note"] in "".join(notes).replace(" ", "")), None)
        if k:
            known[k["what"]] = 1
            continue
        viols.append((f, oc, notes, vals))
    # native replay of sampled paths
    by = {}
    for p in parts:
        for s in p["samples"]:
            by.setdefault(s["entry"], []).append(s)
    chosen = []
    per = max(8, 96 // max(1, len(ents)))
    for e, l in sorted(by.items()):
        l.sort(key=lambda s: json.dumps(s["inputs"]))
        step = max(1, len(l) // per)
        chosen += l[seed % step::step][:per]
    validated, diverged, shown = 0, [], []
    for s in chosen:
        vals = [x[2] for x in s["inputs"]]
        oc, obs, notes = replay(s["entry"], vals, tmp)
        want = [o[0] for o in s["obs"]]
        if oc == "done" and obs == want:
            validated += 1
            if len(shown) < 12:
                shown.append(dict(entry=s["entry"], inputs=vals, observed=obs, notes=notes))
        elif oc.startswith("assert") and fails:
            pass
        else:
            diverged.append((s["entry"], vals, oc, obs, want))
    ours = sorted(k for k in called if "cddl_cat" in k)
    names = sorted(set(re.sub(r"\[[0-9a-f]{8,}\]", "", x) for x in demangle(ours)))
    names = [n for n in names if "cddl_cat::" in n]
    missing = []
    for e in ents:
        for l in e["reach"]:
            if not reach.get("%s/%s" % (e["name"], l)):
                missing.append("%s/%s" % (e["name"], l))
    complete = d["stop"] == 0 and d["crashed"] == 0 and tot["left"] == 0 and not errors
    ev = dict(property=prop, tier=tier, seed=seed, level="model_checking", wall_s=round(time.time() - t0, 2), violations=len(viols),
              coverage=dict(
                  states=tot["done"] + tot["infeasible"] + tot["panic"] + tot["hang"] + tot["overflow"],
                  transitions=tot["forks"],
                  traces_validated_against_impl=validated,
                  samples=shown,
                  exhaustive=bool(complete),
                  explanation="states = paths of the compiled code explored to their end, each standing for every input that satisfies its path condition; transitions = symbolic branches and choices that split a path; every assertion on every path is decided by Z3 or folds to true",
                  entries=[dict(name=e["name"], bounds=e["about"], paths=paths.get(e["name"], 0)) for e in ents],
                  instructions_executed_symbolically=tot["instrs"],
                  assertions_decided=tot["asserts"],
                  assertions_needing_a_query=tot["assert_queries"],
                  solver_queries=tot["queries"], solver_cache_hits=tot["cache_hits"], small_domain_decisions=tot["tt"],
                  solver_seconds=round(tot["solver_ns"] / 1e9, 3),
                  longest_query_ms=round(max([p["solver_max_ns"] for p in parts] or [0]) / 1e6, 2),
                  longest_path_instructions=max([p["maxsteps"] for p in parts] or [0]),
                  processes=d["procs"], build_s=round(build_s, 2), symex_s=round(d["wall_ms"] / 1e3, 2),
                  functions_encoded=len(called), functions_encoded_of_cddl_cat=names,
                  reached=dict(sorted(reach.items()))),
              assumptions=["bounds as given per entry; what lies outside them is not covered",
                           "stubs: allocator never fails; memory intrinsics; core::fmt::write and alloc::fmt::format produce no text (error messages are not checked); hash keys fixed; panic=abort",
                           "rustc's LLVM IR of the dev profile at opt-level 2 with overflow checks is what is encoded"])
    os.makedirs(EVID, exist_ok=True)
    for w in known:
        print("KNOWN-FINDING: property=%s %s" % (prop, w))
    code = 0
    for n, (f, oc, notes, vals) in enumerate(viols):
        p = os.path.join(EVID, "%s.replay.%d.txt" % (prop, n))
        with open(p, "w") as fh:
            fh.write("# %s: %s %s at %s\n# natively: %s\n" % (f["entry"], f["kind"], f["id"], f["where"].replace("\n", " "), oc.replace("\n", " ")))
            for x in notes:
                fh.write("# note %s\n" % x.replace("\n", " "))
            fh.write("# build/h/%s/debug/replay %s THIS-FILE\n" % (TRIPLE, f["entry"]))
            fh.write("\n".join(vals) + "\n")
        print("VIOLATION property=%s replay=%s" % (prop, p))
        print("  entry %s: %s %s; natively: %s; %s" % (f["entry"], f["kind"], f["id"], oc, " ".join(notes)[:400]))
        code = 1
    with open(os.path.join(EVID, prop + ".json"), "w") as fh:
        json.dump(ev, fh, indent=1)
    print("%s %s: %d paths, %d assertions, %d queries (%.1f s), %d replayed, build %.1f s, symex %.1f s, total %.1f s" % (
        prop, tier, ev["coverage"]["states"], tot["asserts"], tot["queries"], tot["solver_ns"] / 1e9, validated, build_s, d["wall_ms"] / 1e3, time.time() - t0))
    if code == 0:
        why = []
        if ghosts:
            why.append("counterexample does not reproduce: %s" % [(f["entry"], f["kind"], f["id"], oc, f["where"][:200]) for f, oc in ghosts[:3]])
        if diverged:
            why.append("the encoding and the native code disagree: %s" % diverged[:3])
        if not complete:
            why.append("incomplete: stop %s crashed %s left %s errors %s" % (d["stop"], d["crashed"], tot["left"], list(errors.items())[:5]))
        if missing and not known:
            why.append("not reached: %s" % missing)
        if why:
            raise NoAnswer("; ".join(why))
    return code


def main():
    if len(sys.argv) < 2:
        print(__doc__)
        return 2
    os.makedirs(BUILD, exist_ok=True)
    lock = open(os.path.join(BUILD, "lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        if sys.argv[1] == "--build":
            print("built in %.1f s" % build())
            return 0
        tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
        return run(sys.argv[1], tier)
    except (NoAnswer, subprocess.TimeoutExpired) as e:
        print("NO-ANSWER %s" % e)
        return 2


sys.exit(main())
