#!/usr/bin/env python3
"""Runs the check of one property: builds what it needs from /repo's working
tree, runs its stages, writes evidence/<id>.json.

    run.py C07              quick or thorough, by VERIF_TIER (--tier overrides)
    run.py replay FILE      runs one saved failure again
    run.py setup            builds the stage programs
    run.py all [--tier T]   every property, one after another

Exit 0: held on everything explored. Exit 1: a line VIOLATION. Exit 2: the
check itself could not be run.
"""
import hashlib, json, os, re, shutil, signal, subprocess, sys, time

V = os.path.dirname(os.path.abspath(__file__))
R = os.environ.get("VERIF_REPO", "/repo")
H = V + "/h"
WORK = V + "/work"
TARGET = V + "/target"

# The stages of each property: program, arguments.
L2 = ["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C10", "C14", "C15", "C16", "C17", "C18", "C20", "C22"]
STAGES = {"C15": [("vbuilt", [])]}


def add(prog, *props):
    for p in props:
        STAGES.setdefault(p, []).append((prog, ["--prop", p]))


add("vmeta", "C07", "C09", "C10", "C11", "C19")
add("vcore", "C12", "C13")
# The same without debug assertions and overflow checks, as users' optimised builds are.
add("vcore@rel", "C12", "C13")
add("vtmpl", "C06", "C22")
add("vgen", "C16", "C19", "C20", "C21")
add("vl2", *L2)

PROGRAMS = sorted({prog for st in STAGES.values() for prog, _ in st})


def log(*a):
    print(*a, file=sys.stderr, flush=True)


class Tool(Exception):
    pass


class NoBuild(Tool):
    """A stage program that does not compile."""


class Unbuilt(Exception):
    """What should compile in every case does not."""


def env():
    e = dict(os.environ)
    e["VERIF_DIR"] = V
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TARGET_DIR"] = TARGET
    e["CARGO_TERM_COLOR"] = "never"
    e.pop("RUSTFLAGS", None)
    e.pop("RUSTUP_TOOLCHAIN", None)
    e["PATH"] = e.get("PATH", "") + ":/root/.cargo/bin:/usr/local/cargo/bin"
    p = "/opt/vp/env.sh"
    if os.path.exists(p):
        out = subprocess.run(["bash", "-c", f". {p} >/dev/null 2>&1; env -0"], env=e, stdout=subprocess.PIPE).stdout
        for kv in out.decode("utf-8", "surrogateescape").split("\0"):
            k, _, v = kv.partition("=")
            if k in ("PATH", "CARGO_HOME", "RUSTUP_HOME"):
                e[k] = v
    return e


def tree_hash():
    """Of everything in /repo that the stage programs are built from."""
    h = hashlib.sha256()
    for root, dirs, files in os.walk(R):
        dirs[:] = sorted(d for d in dirs if d not in ("target", ".git", ".vp-target"))
        for f in sorted(files):
            if f.endswith((".rs", ".toml", ".pest", ".lock", ".txt")):
                p = os.path.join(root, f)
                try:
                    b = open(p, "rb").read()
                except OSError:
                    continue
                h.update(p.encode() + b"\0" + hashlib.sha256(b).digest())
    return h.hexdigest()


def fresh():
    """Cargo goes by file times. They mean nothing when a tree was copied: have
    the crates of /repo rebuilt whenever their text is not what was built."""
    os.makedirs(TARGET, exist_ok=True)
    now = tree_hash()
    mark = TARGET + "/built-from"
    old = open(mark).read() if os.path.exists(mark) else ""
    if old != now:
        for base in (TARGET + "/debug", TARGET + "/rel", TARGET + "/l2/debug", TARGET + "/l2b/debug"):
            fp = base + "/.fingerprint"
            if os.path.isdir(fp):
                for d in os.listdir(fp):
                    if d.startswith("pest3"):
                        shutil.rmtree(os.path.join(fp, d), ignore_errors=True)
        with open(mark, "w") as f:
            f.write(now)
    return now


def binary(prog):
    name, _, profile = prog.partition("@")
    return f"{TARGET}/{profile or 'debug'}/{name}"


def build(prog):
    t = time.time()
    name, _, profile = prog.partition("@")
    r = subprocess.run(["cargo", "build", "--offline", "-q", "-p", name, *(["--profile", profile] if profile else [])], cwd=H, env=env(),
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    if r.returncode:
        # A derived parser of built-in rules only, one rule each.
        if re.search(r"^ *--> vbuilt/src/g\.rs", r.stdout, re.M) and not re.search(r"^error.*\n *--> (?!vbuilt/src/g\.rs)", r.stdout, re.M):
            raise Unbuilt(r.stdout[-6000:])
        raise NoBuild(f"{prog} does not build:\n{r.stdout[-6000:]}")
    log(f"built {prog} in {time.time() - t:.1f}s")


def marks(d):
    """The cases that were running when a stage program ended."""
    out = []
    for f in sorted(os.listdir(d)):
        try:
            s = open(os.path.join(d, f)).read().split()
        except OSError:
            continue
        if len(s) == 2 and s[1].isdigit():
            out.append((f, s[0], int(s[1])))
    return out


def stage(prog, args, seed, tier, extra=()):
    """Returns the stages' results. A death of the program is traced to a case."""
    tmp = f"{WORK}/run-{os.getpid()}"
    shutil.rmtree(tmp, ignore_errors=True)
    md = tmp + "/marks"
    os.makedirs(md)
    out = tmp + "/out.json"
    try:
        e = env()
        e["VKIT_MARK"] = md
        cmd = [binary(prog), *args, "--seed", str(seed), "--tier", tier, "--out", out, *extra]
        # What takes all memory is to end here, not to end something else.
        lim = [] if prog == "vl2" else ["bash", "-c", 'ulimit -v 16000000; ulimit -c 0; exec "$@"', "-"]
        r = subprocess.run(lim + cmd, cwd=V, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
        if r.returncode == 0 and os.path.exists(out):
            return json.load(open(out))
        if r.returncode >= 0 and r.returncode != 97:
            raise Tool(f"{' '.join(cmd)} exits {r.returncode}:\n{r.stdout[-4000:]}")
        why = "does not return" if r.returncode == 97 else f"ends the process with {signal.Signals(-r.returncode).name}"
        cand = [m for m in marks(md) if r.returncode != 97 or m[0] in ("hang", "found")]
        log(f"{prog}: {why}; candidates {cand}")
        # Only a case that does the same alone counts.
        for _, name, case in cand[:16]:
            rep = {"stage": name, "case": case, "seed": seed}
            how = alone(prog, args, rep, tmp)
            if how:
                return [{"stage": name, "evaluations": case + 1, "distinct_nontrivial": 0, "rule": "", "samples": [],
                         "notes": [], "classes": {}, "violations": [{"sig": "dies", "detail": f"case {case}, alone: {how}\nThe search {why}:\n{r.stdout[-1500:]}", "replay": rep}]}]
        raise Tool(f"{prog} {why}, which no case repeats alone:\n{r.stdout[-3000:]}")
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def alone(prog, args, rep, tmp):
    """Whether a case fails, ends the process or does not return within 120 s of CPU time, by itself."""
    f = tmp + "/alone.json"
    with open(f, "w") as h:
        json.dump(rep, h)
    e = env()
    e.pop("VKIT_MARK", None)
    out = tmp + "/alone-out.json"
    cmd = ["bash", "-c", 'ulimit -t 120; ulimit -v 8000000; ulimit -c 0; exec "$@"', "-", binary(prog), *args, "--replay", f, "--out", out]
    r = subprocess.run(cmd, cwd=V, env=e, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    if r.returncode < 0 or r.returncode >= 128:
        return "ends the process, or does not return"
    if r.returncode == 0 and os.path.exists(out):
        for s in json.load(open(out)):
            for v in s["violations"]:
                return f"{v['sig']}: {v['detail']}"
    return None


def known():
    """known-findings.txt: `known: property=<id> sig=<sig> input=<text that is in the detail> | <what fails>`."""
    out = []
    p = V + "/known-findings.txt"
    if os.path.exists(p):
        for line in open(p, encoding="utf-8"):
            m = re.match(r"known: property=(\S+) sig=(\S+) input=(.*?) \| (.*)$", line.rstrip("\n"))
            if m:
                out.append(m.groups())
    return out


def check(prop, tier, seed):
    t0 = time.time()
    if prop not in STAGES:
        raise Tool(f"no check of {prop}")
    os.makedirs(WORK, exist_ok=True)
    fresh()
    res, unbuilt = [], []
    for prog, args in STAGES[prop]:
        t = time.time()
        try:
            build(prog)
            t = time.time()
            got = stage(prog, args, seed + (1000003 if "@" in prog else 0), tier)
        except Unbuilt as e:
            got = [{"stage": prog, "evaluations": 1, "distinct_nontrivial": 0, "rule": "", "samples": [], "notes": [], "classes": {},
                    "violations": [{"sig": "does-not-compile", "detail": str(e), "replay": {"build": prog}}]}]
        except NoBuild as e:
            # The other stages still have their say.
            unbuilt.append(e)
            log(f"error: {e}")
            continue
        except Tool as e:
            # What was found before stands.
            if not any(s["violations"] for s in res):
                raise
            log(f"error: {e}")
            continue
        log(f"{prog} {' '.join(args)}: {time.time() - t:.1f}s")
        for s in got:
            s["program"], s["args"] = prog, args
        res += got
    if not res or sum(s["evaluations"] for s in res) == 0:
        if not any(s["violations"] for s in res):
            raise unbuilt[0] if unbuilt else Tool("nothing was evaluated")
    kf = known()
    nviol, lines = 0, []
    seen_known = set()
    for s in res:
        for v in s["violations"]:
            k = next((k for k in kf if k[0] == prop and k[1] == v["sig"] and json.loads(k[2]) in v["detail"]), None)
            if k:
                seen_known.add(k)
                continue
            nviol += 1
            d = f"{V}/replays"
            os.makedirs(d, exist_ok=True)
            body = {"property": prop, "program": s["program"], "args": s["args"], "sig": v["sig"], "detail": v["detail"], "replay": v["replay"]}
            key = hashlib.sha256(json.dumps(body, sort_keys=True).encode()).hexdigest()[:12]
            path = f"{d}/{prop}-{key}.json"
            with open(path, "w") as f:
                json.dump(body, f, indent=1, ensure_ascii=False)
            print(f"--- {s['stage']}: {v['sig']}\n{v['detail'][:3000]}\n")
            lines.append(f"VIOLATION property={prop} replay={path}")
    for k in kf:
        if k[0] == prop:
            print(f"KNOWN-FINDING: property={prop} {k[3]}")
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": sum(s["evaluations"] for s in res),
            "distinct_nontrivial": sum(s["distinct_nontrivial"] for s in res),
            "rule": " || ".join(f"{s['stage']}: {s['rule']}" for s in res),
            "samples": [x[:2000] for s in res for x in s["samples"][:4]] or ["(no sample kept)"],
            "not_run": [str(e)[:1000] for e in unbuilt],
            "stages": [{k: s[k] for k in ("stage", "evaluations", "distinct_nontrivial", "classes", "notes")} for s in res],
        },
        "wall_s": round(time.time() - t0, 1),
        "violations": nviol,
    }
    os.makedirs(V + "/evidence", exist_ok=True)
    with open(f"{V}/evidence/{prop}.json", "w") as f:
        json.dump(ev, f, indent=1, ensure_ascii=False)
    for e in unbuilt:
        print(f"NOT RUN: {str(e).splitlines()[0]}")
    for x in lines:
        print(x)
    print(f"{prop} {tier} seed {seed}: {ev['coverage']['evaluations']} cases, "
          f"{ev['coverage']['distinct_nontrivial']} non-trivial, {nviol} violations, {ev['wall_s']}s", flush=True)
    return 1 if nviol else 0


def replay(path):
    j = json.load(open(path))
    fresh()
    os.makedirs(WORK, exist_ok=True)
    try:
        build(j["program"])
    except Unbuilt as e:
        print(e)
        print(f"VIOLATION property={j['property']} replay={path}")
        return 1
    tmp = f"{WORK}/replay-{os.getpid()}"
    os.makedirs(tmp, exist_ok=True)
    try:
        if j["sig"] == "dies":
            bad = alone(j["program"], j["args"], j["replay"], tmp)
            detail = j["detail"]
        else:
            out = tmp + "/out.json"
            subprocess.run([binary(j["program"]), *j["args"], "--replay", os.path.abspath(path), "--out", out], cwd=V, env=env(), check=True)
            vs = [v for s in json.load(open(out)) for v in s["violations"]]
            bad = bool(vs)
            detail = "\n".join(f"{v['sig']}\n{v['detail']}" for v in vs)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    if bad:
        print(detail[:6000])
        print(f"VIOLATION property={j['property']} replay={path}")
        return 1
    print("held")
    return 0


def main():
    a = sys.argv[1:]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    while len(a) > 2 and a[-2] in ("--tier", "--seed"):
        if a[-2] == "--tier":
            tier = a[-1]
        else:
            seed = int(a[-1])
        a = a[:-2]
    if a and a[-1] == "--thorough":
        tier = "thorough"
        a.pop()
    if tier not in ("quick", "thorough"):
        tier = "quick"
    if a == ["setup"]:
        fresh()
        for p in PROGRAMS:
            build(p)
        return 0
    if a[:1] == ["replay"]:
        return replay(a[1])
    if a[:1] == ["all"]:
        return max(check(p, tier, seed) for p in sorted(STAGES))
    return check(a[0], tier, seed)


if __name__ == "__main__":
    try:
        sys.exit(main())
    except Tool as e:
        log(f"error: {e}")
        sys.exit(2)
