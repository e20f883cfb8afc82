#!/usr/bin/env python3
"""check.py ID [--tier quick|thorough] | check.py --setup | check.py --replay FILE

Decides one property: compiles the harness crate with /repo's working tree to
LLVM IR, executes each entry symbolically with rsx (Z3 deciding every branch
and assertion), validates samples and replays violations natively."""
import fcntl, glob, json, os, re, shutil, subprocess, sys, threading, time

HERE = os.path.dirname(os.path.abspath(__file__))
WORK = os.path.join(HERE, "work")
ENV = dict(os.environ, RUSTUP_TOOLCHAIN="1.83.0", CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never")
for v in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "CARGO_TARGET_DIR", "CARGO_BUILD_TARGET", "RUSTC_WRAPPER"):
    ENV.pop(v, None)
RSX = os.path.join(WORK, "engine", "release", "rsx")
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True


def fail(msg):
    print("ERROR: " + msg)
    sys.stdout.flush()
    os._exit(2)


class Lock:
    def __init__(self, name):
        os.makedirs(WORK, exist_ok=True)
        self.p = os.path.join(WORK, name + ".lock")

    def __enter__(self):
        self.f = open(self.p, "w")
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        self.f.close()


def sh(cmd, cwd, env=None, timeout=700):
    e = dict(ENV, **(env or {}))
    return subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)


def build_engine():
    with Lock("engine"):
        r = sh(["cargo", "build", "-q", "--offline", "--release"], os.path.join(HERE, "engine"),
               {"CARGO_TARGET_DIR": os.path.join(WORK, "engine")})
        if r.returncode:
            fail("engine does not build\n" + r.stdout[-4000:])


FORCE = ["static-xml", "static-xml-derive", "harness"]


def forget(tdir, cwd, release, env):
    """Makes cargo rebuild /repo's crates whatever their files' time stamps say."""
    prof = "release" if release else "debug"
    for n in FORCE:
        m = n.replace("-", "_")
        for g in (glob.glob(f"{tdir}/{prof}/.fingerprint/{n}-*") + glob.glob(f"{tdir}/release/.fingerprint/{n}-*")
                  + glob.glob(f"{tdir}/debug/.fingerprint/{n}-*")):
            shutil.rmtree(g, ignore_errors=True)


def build_ir(feature, dest):
    tdir = os.path.join(WORK, "ir")
    with Lock("ir"):
        cwd = os.path.join(HERE, "harness")
        forget(tdir, cwd, True, None)
        for f in glob.glob(tdir + "/release/deps/harness*.ll"):
            os.remove(f)
        r = sh(["cargo", "rustc", "-q", "--offline", "--release", "--features", feature, "--crate-type", "cdylib", "--",
                "--emit=llvm-ir", "-C", "no-vectorize-loops", "-C", "no-vectorize-slp",
                "-C", "link-arg=-Wl,--unresolved-symbols=ignore-all"], cwd, {"CARGO_TARGET_DIR": tdir})
        ll = glob.glob(tdir + "/release/deps/harness*.ll")
        if r.returncode or len(ll) != 1:
            fail("no IR: harness does not build against /repo\n" + r.stdout[-4000:])
        os.makedirs(os.path.dirname(dest), exist_ok=True)
        shutil.copy(ll[0], dest)


def build_native(feature, dest, box):
    try:
        tdir = os.path.join(WORK, "nat")
        with Lock("nat"):
            cwd = os.path.join(HERE, "native")
            forget(tdir, cwd, False, None)
            r = sh(["cargo", "build", "-q", "--offline", "--features", feature], cwd, {"CARGO_TARGET_DIR": tdir})
            if r.returncode:
                box["err"] = r.stdout[-4000:]
                return
            shutil.copy(tdir + "/debug/native", dest)
    except Exception as e:
        box["err"] = str(e)


def parse(path):
    d = dict(stat={}, samples=[], viols=[], incomplete=[], cover={}, fns=[], end=False)
    for l in open(path, errors="replace"):
        f = l.rstrip("\n").split("\t")
        k = f[0]
        if k == "STAT":
            d["stat"][f[1]] = int(f[2])
        elif k == "SAMPLE":
            d["samples"].append(f[1:])
        elif k == "VIOL":
            g = f[1:]
            if g[0].isdigit():
                g = g[1:]
            d["viols"].append(dict(kind=g[0], msg=g[1], at=g[2] if len(g) > 2 else "", input=g[3] if len(g) > 3 else "",
                                   stack=g[4] if len(g) > 4 else ""))
        elif k == "INCOMPLETE":
            d["incomplete"].append("\t".join(f[1:]))
        elif k == "COVER":
            d["cover"][int(f[1])] = int(f[2])
        elif k == "FN":
            d["fns"].append(f[1])
        elif k == "END":
            d["end"] = True
    return d


def demangle(n):
    m = re.match(r"_ZN(.*)E$", n)
    if not m:
        return n
    s, out = m.group(1), []
    while s:
        g = re.match(r"(\d+)", s)
        if not g:
            break
        k = int(g.group(1))
        s = s[len(g.group(1)):]
        out.append(s[:k])
        s = s[k:]
    if out and re.match(r"h[0-9a-f]{16}$", out[-1]):
        out.pop()
    r = "::".join(out)
    for a, b in (("$LT$", "<"), ("$GT$", ">"), ("$u20$", " "), ("$C$", ","), ("$RF$", "&"), ("$BP$", "*"), ("$LP$", "("),
                 ("$RP$", ")"), ("$u7b$", "{"), ("$u7d$", "}"), ("$u27$", "'"), ("$u5b$", "["), ("$u5d$", "]"), ("$u3b$", ";"), ("..", "::")):
        r = r.replace(a, b)
    return r


def native(binary, entry, inp, pre=(), timeout=60, extra=()):
    try:
        r = subprocess.run(list(pre) + [binary, entry, inp] + list(extra), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True,
                           errors="replace", timeout=timeout)
        return r.returncode, r.stdout + r.stderr
    except subprocess.TimeoutExpired:
        return "timeout", ""


def reproduces(binary, entry, v):
    """Does the real code, run natively on the solver's input, misbehave the same way?"""
    k = v["kind"]
    if k == "check":
        rc, out = native(binary, entry, v["input"])
        if rc == 10 and "CHECK-FAILED" in out:
            return out.strip()
        if rc == 101 or (isinstance(rc, int) and rc < 0):
            return f"exit {rc}: " + out.strip()[-400:]
        return None
    if k in ("nontermination", "resource"):
        rc, out = native(binary, entry, v["input"], timeout=20)
        if rc == "timeout":
            return "still running after 20 s"
        if rc in (13, 10, 101) or (isinstance(rc, int) and rc < 0):
            return f"exit {rc}: " + out.strip()[-400:]
        return None
    rc, out = native(binary, entry, v["input"])
    if rc == "timeout":
        return "still running after 60 s"
    if rc in (10, 13, 101) or (isinstance(rc, int) and rc < 0):
        return f"exit {rc}: " + out.strip()[-400:]
    if k in ("memory", "uninit", "unreachable", "trap", "abort"):
        if shutil.which("valgrind"):
            rc, out = native(binary, entry, v["input"], pre=["valgrind", "-q", "--error-exitcode=99", "--leak-check=no"], timeout=120)
            if rc == 99:
                return "valgrind: " + out.strip()[:600]
    return None


def findings(pid):
    out = []
    p = os.path.join(HERE, "known_findings.txt")
    for l in open(p) if os.path.exists(p) else []:
        m = re.match(r"finding: property=(\S+) entry=(\S+) msg=\"(.*?)\" input=(\S*) (.*)$", l.strip())
        if m and m.group(1) == pid:
            out.append(dict(entry=m.group(2), msg=m.group(3), input=m.group(4), what=m.group(5)))
    return out


def match_finding(fs, entry, v):
    for f in fs:
        if f["entry"] == entry and f["msg"] == v["msg"] and (f["input"] == "*" or f["input"] == v["input"]):
            return f
    return None


def main_check(pid, tier):
    import table
    t0 = time.time()
    p = table.P.get(pid) or fail("no such property " + pid)
    wd = os.path.join(WORK, "run-" + pid)
    shutil.rmtree(wd, ignore_errors=True)
    os.makedirs(wd)
    build_engine()
    box = {}
    nb = os.path.join(wd, "native")
    th = threading.Thread(target=build_native, args=(p["feature"], nb, box))
    th.start()
    ll = os.path.join(wd, "harness.ll")
    build_ir(p["feature"], ll)
    tb = time.time() - t0
    entries = list(p["quick"]) + (list(p["thorough"]) if tier == "thorough" else [])
    default = 45 if tier == "quick" else 120
    total = 420 if tier == "quick" else 3600
    fs = findings(pid)
    covers = json.load(open(os.path.join(HERE, "covers.json"))) if os.path.exists(os.path.join(HERE, "covers.json")) else {}
    per, fns, viols, known, errors = [], set(), [], {}, []
    agg = {}
    batch = []
    for name, budget in entries:
        left = total - (time.time() - t0 - tb)
        b = int(max(3, min(budget or default, left)))
        out = os.path.join(wd, name + ".out")
        r = sh([RSX, ll, "--entry", name, "--out", out, "--time", str(b), "--jobs", str(os.cpu_count() or 8)], wd, timeout=b + 120)
        if not os.path.exists(out):
            fail(f"{name}: engine failed\n" + r.stdout[-2000:])
        d = parse(out)
        if not d["end"]:
            errors.append(f"{name}: engine stopped early: " + r.stdout[-500:])
        s = d["stat"]
        for k, v in s.items():
            agg[k] = max(agg.get(k, 0), v) if k.startswith("max") else agg.get(k, 0) + v
        fns.update(d["fns"])
        per.append(dict(entry=name, completed=not d["incomplete"], paths=s.get("paths", 0), forks=s.get("forks", 0),
                        instructions=s.get("instrs", 0), queries=s.get("queries", 0), z3_calls=s.get("z3_calls", 0),
                        z3_s=round(s.get("z3_us", 0) / 1e6, 3), symbolic_inputs=s.get("max_vars", 0), wall_ms=s.get("wall_ms", 0),
                        witnesses=d["cover"], incomplete=d["incomplete"][:3]))
        if s.get("done", 0) == 0 and not d["viols"] and not d["incomplete"]:
            errors.append(f"{name}: vacuous, no path completed")
        for c in covers.get(name, []):
            if c not in d["cover"] and not d["incomplete"] and not d["viols"]:
                errors.append(f"{name}: vacuous, situation {c} never reached")
        for v in d["viols"]:
            f = match_finding(fs, name, v)
            if f:
                known.setdefault((f["entry"], f["msg"], f["input"]), (f, name, v))
            else:
                viols.append((name, v))
        for smp in d["samples"][:24]:
            batch.append((name, smp))
    th.join()
    if "err" in box:
        fail("native harness does not build\n" + box["err"])

    # Violations: believed only if the real code reproduces them.
    confirmed, unconfirmed, tried = [], [], {}
    for name, v in viols:
        key = (name, v["kind"], v["msg"])
        if tried.get(key, 0) >= 3 or len(confirmed) >= 5:
            continue
        tried[key] = tried.get(key, 0) + 1
        how = reproduces(nb, name, v)
        (confirmed if how else unconfirmed).append((name, v, how))
    for f, name, v in known.values():
        if reproduces(nb, name, v):
            print(f"KNOWN-FINDING: property={pid} {f['what']}")

    # Samples: symbolic and native execution must agree.
    validated, mismatches, samples = 0, [], []
    bf = os.path.join(wd, "batch")
    todo = batch
    while todo:
        with open(bf, "w") as f:
            for name, smp in todo:
                f.write(f"{name} {smp[1]}\n")
        try:
            r = subprocess.run([nb, "--batch", bf], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", timeout=120)
            lines = r.stdout.splitlines()
        except subprocess.TimeoutExpired as e:
            lines = (e.stdout or b"").decode(errors="replace").splitlines()
        i = 0
        for (name, smp), l in zip(todo, lines):
            if l.split() == [smp[2].lstrip() , smp[3]]:
                validated += 1
                if len(samples) < 12 and (not samples or samples[-1]["entry"] != name):
                    samples.append(dict(entry=name, input=smp[1], output_hash=smp[2]))
            else:
                mismatches.append((name, smp[1], smp[2] + " " + smp[3], l))
            i += 1
        if i < len(todo):
            if not mismatches or mismatches[-1][0] != todo[i - 1][0]:
                mismatches.append((todo[i][0], todo[i][1][1], "ran", "native run ended"))
            todo = todo[i + 1:]
            if len(mismatches) > 5:
                break
        else:
            break

    ev = dict(property=pid, tier=tier, seed=int(os.environ.get("VERIF_SEED", "1")), level="model_checking",
              coverage=dict(
                  states=agg.get("paths", 0) + agg.get("forks", 0),
                  transitions=agg.get("instrs", 0),
                  traces_validated_against_impl=validated,
                  samples=samples,
                  paths_completed=agg.get("done", 0),
                  assertions_checked=agg.get("checks", 0),
                  queries_discharged=agg.get("queries", 0), z3_calls=agg.get("z3_calls", 0),
                  z3_sat=agg.get("z3_sat", 0), z3_unsat=agg.get("z3_unsat", 0), z3_unknown=agg.get("unknown", 0),
                  solver_s=round(agg.get("z3_us", 0) / 1e6, 3), max_query_s=round(agg.get("max_query_us", 0) / 1e6, 4),
                  max_symbolic_inputs=agg.get("max_vars", 0),
                  functions_under_check=p["functions"],
                  functions_encoded=len(fns),
                  repo_functions_encoded=sorted({demangle(f) for f in fns if "static_xml" in f})[:400],
                  bounds=p["bounds"], outside_the_bounds=p["outside"],
                  exhaustive_within_bounds=not any(e["incomplete"] for e in per),
                  incomplete_entries=[e["entry"] for e in per if e["incomplete"]],
                  entries=per),
              assumptions=[
                  "rustc 1.83 and LLVM lower the code faithfully (opt-level 1, overflow checks and debug assertions on, panic=abort)",
                  "the engine's IR semantics; cross-checked by replaying sampled paths natively",
                  "Z3 4.8.12's answers", "allocation never fails; HashMap keys are fixed"],
              wall_s=round(time.time() - t0, 2), violations=len(confirmed), build_s=round(tb, 2))
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(HERE, "evidence", pid + ".json"), "w"), indent=1)
    inc = [e["entry"] for e in per if e["incomplete"]]
    print(f"{pid} {tier}: {len(per)} entries, {agg.get('paths', 0)} paths, {agg.get('queries', 0)} queries, "
          f"{validated} traces validated, {len(confirmed)} violations, {ev['wall_s']} s" + (f"; incomplete: {' '.join(inc)}" if inc else ""))
    for i, (name, v, how) in enumerate(confirmed):
        rp = os.path.join(WORK, "replay", f"{pid}-{i}.json")
        os.makedirs(os.path.dirname(rp), exist_ok=True)
        json.dump(dict(property=pid, feature=p["feature"], entry=name, input=v["input"], kind=v["kind"], msg=v["msg"], observed=how,
                       stack=[demangle(x) for x in v["stack"].split(";")]), open(rp, "w"), indent=1)
        print(f"  {name} {v['kind']}: {v['msg']} (input {v['input']}); natively: {how[:300]!r}")
        print(f"VIOLATION property={pid} replay={rp}")
    if confirmed:
        code = 1
    else:
        for name, v, _ in unconfirmed:
            errors.append(f"{name}: {v['kind']}: {v['msg']} on {v['input']} does not reproduce natively")
        for m in mismatches[:5]:
            errors.append("symbolic and native execution differ: %s %s: %s / %s" % m)
        for e in errors:
            print("ERROR: " + e)
        code = 2 if errors else 0
    if not os.environ.get("KEEP_WORK"):
        for f in glob.glob(wd + "/*.ll"):
            os.remove(f)
    return code


def main_replay(path):
    j = json.load(open(path))
    os.makedirs(WORK, exist_ok=True)
    nb = os.path.join(WORK, "replay-native")
    box = {}
    build_native(j["feature"], nb, box)
    if "err" in box:
        fail(box["err"])
    how = reproduces(nb, j["entry"], j)
    print(how or "does not reproduce")
    if how:
        print(f"VIOLATION property={j['property']} replay={path}")
    return 1 if how else 0


def main():
    a = sys.argv[1:]
    if a[0] == "--setup":
        build_engine()
        return 0
    if a[0] == "--replay":
        return main_replay(a[1])
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in a:
        tier = a[a.index("--tier") + 1]
    return main_check(a[0], tier)


if __name__ == "__main__":
    sys.exit(main())
