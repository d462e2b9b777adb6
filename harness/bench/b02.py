"""B02: the wasmtime benchmarks (benchmarking-node/wasmtime-benchmarks) record every run they make, as it went."""
import csv, json, os, re, shutil, subprocess, sys, tempfile
from vmon import REPO, VERIF, NoVerdict, main

HERE = os.path.dirname(os.path.abspath(__file__))
SRC = os.path.join(REPO, "benchmarking-node", "wasmtime-benchmarks")
RUST = os.path.join(REPO, "benchmarking-node", "input-analyses", "rust")
BASE = os.path.join(VERIF, "work", "b02")
RUNNER = os.path.join(VERIF, "work", "target-b02", "release", "wasmtime-benchmarks")
SUITE = os.path.join(BASE, "suite")
FIELDS = ["runtime", "platform", "analysis", "input_program", "completion_time", "time_unit", "timeout", "timeout_amount", "exception", "exception_reason"]
ANALYSES = sorted(a for a in os.listdir(RUST) if os.path.exists(os.path.join(RUST, a, "Cargo.toml")) and a != "wastrumentation-rs-stdlib")


def programs():
    code = "import json, input_programs_analysis_config as c; print(json.dumps(c.input_programs))"
    out = subprocess.run(["python3", "-c", code], cwd=os.path.join(REPO, "benchmarking-node", "wasmr3-python"), capture_output=True, text=True, env=dict(os.environ, PYTHONDONTWRITEBYTECODE="1"))
    if out.returncode:
        raise NoVerdict(out.stderr)
    return json.loads(out.stdout.splitlines()[-1])


def prepare():
    """Builds the repository's program on a wasmtime that takes notes, and lays out what the other driver leaves behind."""
    shutil.rmtree(BASE, ignore_errors=True)
    runner = os.path.join(BASE, "runner")
    shutil.copytree(SRC, runner, ignore=shutil.ignore_patterns("target", "Cargo.lock", "working_dir"))
    with open(os.path.join(runner, "Cargo.toml"), "a") as f:
        f.write("\n[patch.crates-io]\n" + "".join(f'{c} = {{ path = "{HERE}/{c}" }}\n' for c in ("wasmtime", "csv")))
    shutil.copy(os.path.join(HERE, "b02.lock"), os.path.join(runner, "Cargo.lock"))
    out = subprocess.run(["cargo", "build", "--release", "--offline", "--target-dir", os.path.join(VERIF, "work", "target-b02")], cwd=runner, capture_output=True, text=True)
    if out.returncode:
        print(out.stderr[-3000:] + "\nerror: the wasmtime benchmarks do not build", file=sys.stderr)
        sys.exit(2)
    for where in ["benchmarks"] + ["benchmarks_wastrumentation/" + a for a in ANALYSES]:
        for p in programs():
            d = os.path.join(SUITE, "working-dir", "wasm-r3", where, p)
            os.makedirs(d)
            open(os.path.join(d, p + ".wasm"), "w").write(f"\0asm{where}/{p}")


class Bad(Exception):
    pass


def want(cond, what, *detail):
    if not cond:
        raise Bad(what, " ".join(str(d) for d in detail))


def arguments(parts):
    """What the runner was asked."""
    got, k = {}, 0
    while k < len(parts):
        name, eq, v = parts[k].partition("=")
        if not eq:
            k += 1
            v = parts[k] if k < len(parts) else None
        k += 1
        short = {"-p": "--platform", "-a": "--analysis", "-r": "--runs"}
        got[short.get(name, name).lstrip("-")] = v
    return got


KINDS = ["trap", "assert", "kill", "hang"]


def case(i, r, rep):
    os.makedirs(BASE, exist_ok=True)
    d = tempfile.mkdtemp(prefix="case-", dir=BASE)
    try:
        cwd = os.path.join(d, "tree", "wasmtime-benchmarks")
        os.makedirs(cwd)
        os.makedirs(os.path.join(d, "bin"))
        os.makedirs(os.path.join(d, "plan"))
        for f in os.listdir(SRC):
            if f.endswith(".py"):
                shutil.copy(os.path.join(SRC, f), cwd)
        os.symlink(SUITE, os.path.join(d, "tree", "wasmr3-python"))
        os.symlink(os.path.join(HERE, "standin", "cargo-run.sh"), os.path.join(d, "bin", "cargo"))
        odd = r.choice([0, 0.05, 0.2])
        plans = {}
        for k in range(2000):
            if r.random() < odd:
                plans[k] = (r.choice(KINDS), r.choice([0, 0, 0, 1, r.randrange(30)]))
            elif r.random() < 0.03:
                plans[k] = ("ok", r.randrange(1, 3000))
        for k, (what, at) in plans.items():
            open(os.path.join(d, "plan", str(k)), "w").write(f"{what} {at}")
        # records of an earlier campaign stay
        earlier = b""
        if r.random() < 0.3:
            earlier = b"Wasmtime,uninstrumented,none,fib,12345,ns,false,0,false,\n"
            open(os.path.join(cwd, "results.csv"), "wb").write(earlier)
        env = dict(os.environ, SCN=d, RUNNER=RUNNER, PATH=os.path.join(d, "bin") + ":/usr/local/bin:/usr/bin:/bin", PYTHONDONTWRITEBYTECODE="1", RUST_BACKTRACE=r.choice(["0", "1"]))
        try:
            out = subprocess.run(["python3", os.path.join(HERE, "drive.py"), "wrapper.py", "{}"], cwd=cwd, env=env, capture_output=True, text=True, timeout=200, errors="replace")
        except subprocess.TimeoutExpired:
            raise Bad("hang", "the driver does not end")
        log = open(os.path.join(d, "log")).read().splitlines() if os.path.exists(os.path.join(d, "log")) else []
        judge(d, cwd, log, out, earlier, plans, rep)
        if i == 0:
            rep.samples = ["; ".join(log)[:600]]
    except Bad as e:
        log = open(os.path.join(d, "log")).read().splitlines() if os.path.exists(os.path.join(d, "log")) else []
        rep.violation(e.args[0].replace(" ", "-"), e.args[1] + "\n" + "\n".join(log[-40:]))
    finally:
        shutil.rmtree(d, ignore_errors=True)


def judge(d, cwd, log, out, earlier, plans, rep):
    want(out.returncode == 0, "status", f"ends with {out.returncode}: {out.stderr[-1500:]}")
    path = os.path.join(cwd, "results.csv")
    raw = open(path, "rb").read() if os.path.exists(path) else b""
    want(raw.startswith(earlier), "earlier records", "are gone")
    rows = [dict(zip(FIELDS, x)) for x in csv.reader(raw[len(earlier):].decode().splitlines(True))]
    want(all(len(x) == len(FIELDS) for x in rows), "columns", "a row with other columns than", FIELDS)
    rep.evals += 1
    # executions with what happened in each
    execs = []
    for line in log:
        p = line.split("|")
        if p[0] == "exec":
            execs.append((int(p[1]), arguments(p[2:]), []))
        else:
            want(execs, "order", line)
            execs[-1][2].append(p)
    at, seen, lengths = 0, {}, set()
    for nth, a, events in execs:
        who = f"execution {nth} {a}"
        want(set(a) == {"platform", "input-program", "input-program-path", "analysis", "runs"}, "arguments", who)
        where = "benchmarks" if a["platform"] == "uninstrumented" else f"benchmarks_wastrumentation/{a['analysis']}"
        want(a["platform"] == "Wastrumentation" or (a["platform"], a["analysis"]) == ("uninstrumented", "none"), "label", who)
        runs = int(a["runs"])
        seen.setdefault((a["platform"], a["analysis"], a["input-program"]), []).append(runs)
        done, over, found = 0, None, None
        for k, e in enumerate(events):
            if e[0] == "instance":
                want(e[1] == f"{where}/{a['input-program']}", "binary", who, "ran", e[1])
            elif e[0] == "found":
                found = int(e[1])
            elif e[0] == "start":
                want(found is not None, "instance", who, "starts twice what was set up once")
                nxt = events[k + 1] if k + 1 < len(events) else None
                want(nxt and nxt[0] == "record", "record", who, "run", done, "is followed by", nxt)
                want(at < len(rows), "rows", who, "run", done, "has no row")
                row = rows[at]
                at += 1
                labels(row, a, who)
                want(row["timeout"].lower() == row["exception"].lower() == "false" and row["exception_reason"] == "", "success", row, who)
                ns = float(row["completion_time"]) * {"ns": 1, "us": 1e3, "ms": 1e6, "s": 1e9}.get(row["time_unit"], 0)
                grain = {"ns": 1, "us": 1e3, "ms": 1e6}.get(row["time_unit"], 1e9)
                want(int(e[2]) - int(e[1]) - grain - 1000 <= ns <= int(nxt[1]) - found + 1000, "time", row, "for", e, "set up at", found, "recorded at", nxt[1], who)
                found = None
                done += 1
                rep.count("runs recorded")
            elif e[0] == "ends":
                over = e[1]
            elif e[0] == "limit":
                lengths.add((runs, float(e[1])))
                want(over == "hang", "limit", who)
                row = rows[at] if at < len(rows) else None
                at += 1
                want(row, "rows", who, "no row for running out of time")
                labels(row, a, who)
                want((row["timeout"].lower(), row["exception"].lower()) == ("true", "false") and float(row["timeout_amount"]) == float(e[1]), "timeout", row, "after", e[1], who)
                rep.count("runs out of time")
        if over in ("trap", "assert", "kill"):
            row = rows[at] if at < len(rows) else None
            at += 1
            want(row, "rows", who, "no row for the failure", over)
            labels(row, a, who)
            want((row["timeout"].lower(), row["exception"].lower()) == ("false", "true"), "failure", row, who)
            reason = row["exception_reason"]
            if over == "assert":
                want(reason == "Wasmtime assertion failure", "reason", row, who)
            elif over == "trap":
                want("wasm trap: wasm `unreachable` instruction executed" in reason and "Running" not in reason and "Finished" not in reason, "reason", row, who)
            else:
                want(reason, "reason", row, who)
            rep.count(f"failures: {over}")
        planned, k = plans.get(nth, ("ok", 0))
        if over is None:
            want(done == runs, "runs", who, "made", done)
            want(planned == "ok" or k >= runs, "plan", who)
        else:
            want((planned, k) == (over, done), "goes on", who, over, "after", done)
        rep.saw((a["platform"], runs, over, done))
    want(at == len(rows), "rows", "without a run:", rows[at:])
    # which were made
    plain = {p for pl, _, p in seen if pl == "uninstrumented"}
    want(plain == set(programs()), "combinations", "plain programs", sorted(plain ^ set(programs())))
    analyses = {a for pl, a, _ in seen if pl != "uninstrumented"}
    want("forward" in analyses and analyses <= set(ANALYSES), "combinations", "analyses", sorted(analyses))
    many = {tuple(v) for v in seen.values()}
    want(set(seen) == {("uninstrumented", "none", p) for p in plain} | {("Wastrumentation", a, p) for a in analyses for p in plain}, "combinations", "of analysis and program are missing")
    want(len(many) == 1 and (lambda v: len(v) == 2 and v[0] == 1 < v[1])(next(iter(many))), "repetitions", "are", sorted(many)[:5])
    # a run has as long on its own as among others
    want(len({t / n for n, t in lengths}) <= 1, "limit", sorted(lengths))
    rep.count("executions", len(execs))
    rep.count("programs", 0)


def labels(row, a, who):
    have = [row[f] for f in ("runtime", "platform", "analysis", "input_program")]
    want(have == ["Wasmtime", a["platform"], a["analysis"], a["input-program"]], "label", "the row for", who, "says", have)


if __name__ == "__main__":
    try:
        prepare()
        main("B02", case, "one evaluation = one campaign of all analyses and programs with scripted runs; distinct: platform, number of runs asked, how and after how many it ended", (60, 1500), (60, 600))
    finally:
        shutil.rmtree(BASE, ignore_errors=True)
