"""B01: the benchmark driver (benchmarking-node/wasmr3-python) measures what it says and writes down what it measured."""
import csv, json, os, re, shutil, subprocess, sys, tempfile
from vmon import REPO, VERIF, NoVerdict, main

HERE = os.path.dirname(os.path.abspath(__file__))
SRC = os.path.join(REPO, "benchmarking-node")
# an advice of the Rust library, and the hook of the command line it needs
ADVICE = {
    "apply": "generic-apply", "call pre": "call-pre", "call post": "call-post",
    "call_indirect pre": "call-indirect-pre", "call_indirect post": "call-indirect-post",
    "if_then": "if-then", "if_then_post": "if-then-post", "if_then_else": "if-then-else", "if_then_else_post": "if-then-else-post",
    "br": "branch", "br_if": "branch-if", "br_table": "branch-table", "select": "select", "unary": "unary", "binary": "binary",
    "drop": "drop", "return_": "return", "const_": "const", "local": "local", "global": "global", "store": "store", "load": "load",
    "memory_size": "memory-size", "memory_grow": "memory-grow", "block pre": "block-pre", "block post": "block-post",
    "loop_ pre": "loop-pre", "loop_ post": "loop-post",
}
ANALYSES = ["branches", "opcodes", "icount", "globals", "loops", "memstats", "denan", "safe-heap", "taint"]
ERRORS = [
    ("Invalid data segment", '[CompileError: WebAssembly.instantiate(): Compiling function #{}{} failed: invalid data segment index: {} @+{}]'),
    ("Local count too large", '[CompileError: WebAssembly.instantiate(): Compiling function #{}{} failed: local count too large @+{}]'),
    ("Wasm - Unreachable trap", "RuntimeError: unreachable"),
]


def advices(analysis):
    """The hooks a Rust analysis is about, from its advices."""
    base, text = os.path.join(SRC, "input-analyses", "rust", analysis, "src"), ""
    for d, _, files in os.walk(base):
        text += "\n".join(open(os.path.join(d, f)).read() for f in sorted(files) if f.endswith(".rs"))
    text = re.sub(r"//.*", "", text)
    found, at = set(), 0
    for m in re.finditer(r"advice!\s*[{(\[]", text):
        depth, i = 1, m.end()
        while depth and i < len(text):
            depth += {"{": 1, "(": 1, "[": 1, "}": -1, ")": -1, "]": -1}.get(text[i], 0)
            if depth == 2 and text[i] == "(":
                name = re.search(r"(\w+)(\s+(pre|post))?\s*$", text[m.end():i])
                if name:
                    key = name.group(1) + (" " + name.group(3) if name.group(3) else "")
                    if key in ADVICE:
                        found.add(ADVICE[key])
            i += 1
    return found


def wasabi_hooks(analysis):
    """The hooks a JavaScript analysis is about."""
    path = os.path.join(SRC, "input-analyses", "javascript", analysis + ".cjs")
    if not os.path.exists(path):
        return None
    js = "globalThis.Wasabi={HOOK_NAMES:[],analysis:{},module:{info:{functions:[]}}};require(process.argv[1]);console.log(JSON.stringify(Object.keys(Wasabi.analysis)))"
    out = subprocess.run(["node", "-e", js, path], capture_output=True, text=True)
    if out.returncode:
        raise NoVerdict(f"{path}: {out.stderr}")
    short = {"if_": "if", "return_": "return", "const_": "const", "call_pre": "call", "call_post": "call"}
    return {short.get(h, h) for h in json.loads(out.stdout)}


HOOKS = {}


def hooks(analysis):
    if analysis not in HOOKS:
        HOOKS[analysis] = (advices(analysis), wasabi_hooks(analysis))
    return HOOKS[analysis]


def report(r, program, n, noisy):
    """What a run prints, with the figures in it."""
    times = [round(r.choice([r.random(), r.random() * 1e4, r.randrange(1000), 0]), r.randrange(1, 12)) for _ in range(n)]
    times = [t if f"{t}".find("e") < 0 else 0.5 for t in times]
    memory = [r.randrange(1, 1 << r.randrange(8, 45)) for _ in range(n)]
    a = [f"{program} (run {k + 1}): {int(t) if t == int(t) and r.random() < 0.5 else t}" for k, t in enumerate(times)]
    b = [f"{program} memory usage in bytes: {m}" for m in memory]
    lines = []
    while a or b:
        lines.append((a if a and (not b or r.random() < 0.5) else b).pop(0))
        if noisy and r.random() < 0.6:
            lines.insert(r.randrange(len(lines) + 1), f"Wasabi: hook {r.choice(['if_', 'br-table', 'memory_grow'])} not provided by Wasabi.analysis, I will use an empty function as a fallback")
        if r.random() < 0.1:
            lines.append("")
    return times, memory, lines


def stack(r, message):
    head = ["node:internal/process/promises:%d" % r.randrange(999), "    triggerUncaughtException(err, true /* fromPromise */);", "    ^", ""]
    tail = ["    at wasm://wasm/%08x:wasm-function[%d]:0x%x" % (r.randrange(1 << 32), r.randrange(99), r.randrange(9999)) for _ in range(r.randrange(4))]
    return "\n".join(head + [message] + tail + ["", f"Node.js v22.{r.randrange(30)}.{r.randrange(9)}", ""])


class Scenario:
    def __init__(self, i, r, rep):
        self.r, self.rep = r, rep
        base = os.path.join(VERIF, "work")
        os.makedirs(base, exist_ok=True)
        self.dir = tempfile.mkdtemp(prefix="b01-", dir=base)
        d = self.dir
        self.cwd = os.path.join(d, "tree", "wasmr3-python")
        shutil.copytree(os.path.join(SRC, "wasmr3-python"), self.cwd, ignore=shutil.ignore_patterns("*.ipynb", "*.jl", "working-dir", "__pycache__"))
        shutil.copytree(os.path.join(SRC, "input-analyses", "javascript"), os.path.join(d, "tree", "input-analyses", "javascript"))
        rust = os.path.join(SRC, "input-analyses", "rust")
        for a in os.listdir(rust):
            if os.path.exists(os.path.join(rust, a, "Cargo.toml")):
                os.makedirs(os.path.join(d, "tree", "input-analyses", "rust", a))
                shutil.copy(os.path.join(rust, a, "Cargo.toml"), os.path.join(d, "tree", "input-analyses", "rust", a))
        for x in ["plan", "fail", "count", "bin", "suite/benchmarks"]:
            os.makedirs(os.path.join(d, x))
        for t in ["git", "node", "cargo", "wasabi", "wasm-merge"]:
            os.symlink(os.path.join(HERE, "standin", "tool.sh"), os.path.join(d, "bin", t))
        names = ["fib", "game-of-life", "x", "jsc", "rfx_gen", "multiplyInt"]
        r.shuffle(names)
        self.programs = names[: r.choice([1, 2, 2, 3])]
        self.analyses = sorted(set(r.sample(ANALYSES, r.randrange(0, 4))) | {"forward"})
        self.runs, self.inner = r.choice([1, 1, 2, 5]), r.choice([1, 1, 1, 2, 3, 11])
        self.limit, self.patience = r.choice([1, 7, 300]), r.choice([1, 2, 3])
        for p in self.programs:
            self.program(p, b"\0asm" + f"program {p} {r.randrange(1 << 20)}".encode())
        self.bodies = {p: open(self.suite(p), "rb").read()[4:].decode() for p in self.programs}
        # what is no benchmark
        if r.random() < 0.5:
            self.program("notconfigured", b"\0asmxx")
        if r.random() < 0.5:
            self.program("textual", b"(module)")
        if r.random() < 0.5:
            os.makedirs(os.path.join(d, "suite", "benchmarks", "nothing"))
        self.plans, self.figures = {}, {}
        self.calm = r.random() < 0.3

    def suite(self, p):
        return os.path.join(self.dir, "suite", "benchmarks", p, p + ".wasm")

    def program(self, p, content):
        os.makedirs(os.path.dirname(self.suite(p)))
        open(self.suite(p), "wb").write(content)

    def plan(self, key, program, times, odd, n):
        """The outcomes of the next runs of a wrapper. A plan says per call: shell text; what is to be seen."""
        r = self.r
        for _ in range(times):
            nth = len(self.plans.setdefault(key, []))
            x = r.random()
            if self.calm or x >= odd:
                t, m, lines = report(r, program, n(nth), "wasabi" in key)
                entry, sh = ("ok", t, m), "cat <<'Q'\n" + "\n".join(lines) + "\nQ\n"
            elif x < odd * 0.5:
                entry, sh = ("timeout",), "echo started\necho $$ > \"$SCN/hangs\"\nexec sleep 100\n"
            elif x < odd * 0.95:
                kind, text = r.choice(ERRORS)
                fn = r.choice(["", ':"main"', ':"_start"'] + ([':"r3_main"'] if kind.startswith("Local") else []))
                text = text.format(*[r.randrange(9999), fn, r.randrange(999), r.randrange(99999)][: text.count("{}")])
                entry, sh = ("error", kind), "cat >&2 <<'Q'\n" + stack(r, text) + "\nQ\nexit 1\n"
            else:
                entry, sh = ("unknown",), "echo 'ReferenceError: x is not defined' >&2\nexit 1\n"
            self.plans[key].append(entry)
            open(os.path.join(self.dir, "plan", f"{key}.{nth}"), "w").write(sh)

    def key(self, platform, analysis, program):
        where = {"uninstrumented": "benchmarks", "Wasabi": "benchmarks_wasabi", "Wastrumentation": "benchmarks_wastrumentation"}[platform]
        return "+".join([where] + ([analysis] if analysis else []) + [program])

    def extend_plans(self, once):
        for p in self.programs:
            for pl, a in [("uninstrumented", None)] + [(x, a) for a in self.analyses for x in ("Wasabi", "Wastrumentation")]:
                k = self.key(pl, a, p)
                first = 1 if once(pl, a, p) else 0
                self.plan(k, p, first, 0.35, lambda _n: 1)
                self.plan(k, p, 12, 0.3, lambda _n: self.inner)

    def drive(self, script):
        settings = {
            "config": {"timeout": self.limit, "timeout_treshold": self.patience},
            "input_programs_analysis_config": {"benchmark_runs": self.runs, "NODE_BENCHMARK_RUNS": self.inner, "configured_analyses": self.analyses, "input_programs": self.programs + ["nothing", "textual"]},
        }
        env = dict(os.environ, SCN=self.dir, PATH=os.path.join(self.dir, "bin") + ":/usr/local/bin:/usr/bin:/bin", PYTHONDONTWRITEBYTECODE="1")
        open(os.path.join(self.dir, "log"), "a").close()
        before = len(self.log())
        try:
            out = subprocess.run(["python3", os.path.join(HERE, "drive.py"), script, json.dumps(settings)], cwd=self.cwd, env=env, capture_output=True, text=True, timeout=120, errors="replace")
        except subprocess.TimeoutExpired:
            return None, "", self.log()[before:]
        if out.returncode == 99:
            raise NoVerdict(out.stderr)
        return out.returncode, out.stderr, self.log()[before:]

    def log(self):
        return open(os.path.join(self.dir, "log"), errors="replace").read().splitlines()

    def table(self, name):
        path = os.path.join(self.cwd, "working-dir", name)
        if not os.path.exists(path):
            return []
        with open(path) as f:
            return list(csv.DictReader(f))

    def describe(self):
        return f"programs {self.programs}, analyses {self.analyses}, {self.runs} runs of {self.inner}, limit {self.limit}, patience {self.patience}"


class Bad(Exception):
    pass


def want(cond, what, *detail):
    if not cond:
        raise Bad(what, " ".join(str(d) for d in detail))


def split(key):
    parts = key.split("+")
    platform = {"benchmarks": "uninstrumented", "benchmarks_wasabi": "Wasabi", "benchmarks_wastrumentation": "Wastrumentation"}.get(parts[0])
    want(platform and len(parts) == (2 if platform == "uninstrumented" else 3), "run", "a run of", key)
    return platform, ("" if platform == "uninstrumented" else parts[1]), parts[-1]


def labels(row, key):
    platform, analysis, program = split(key)
    have = (row["runtime"], row["platform"], row["analysis"], row["input_program"])
    want(have == ("NodeJS", platform, analysis, program), "label", "the row for", key, "says", have)


def measured(s, key, prog):
    """What ran is the program, woven for the analysis by the platform."""
    platform, analysis, program = split(key)
    body = s.bodies[program]
    if platform == "uninstrumented":
        want(prog == body, "binary", key, "ran", prog)
        return
    rust, js = hooks(analysis)
    if platform == "Wastrumentation":
        m = re.fullmatch(r"wastrumentation:([^:]*):([^:]*):\((.*)\)", prog)
        want(m and m.group(1) == analysis and m.group(3) == body, "binary", key, "ran", repr(prog))
        want(set(m.group(2).split()) == rust, "hooks", key, "was woven for", m.group(2), "but the analysis has", sorted(rust))
    else:
        m = re.fullmatch(r"wasabi:([^:]*):\((.*)\)", prog)
        want(m and m.group(2) == body, "binary", key, "ran", repr(prog))
        have = set(m.group(1).split())
        want(have ^ js <= {"nop", "unreachable", "start"}, "hooks", key, "was woven for", sorted(have), "but the analysis has", sorted(js))


def row_of(s, row, entry, index):
    """A row says what the run did."""
    no_figures = row["memory_usage"] == row["completion_time"] == row["time_unit"] == ""
    told = (row["timeout"], row["exception"], row["exception_reason"])
    want(row["timeout_amount"] == str(s.limit), "limit", row)
    if entry[0] == "timeout":
        want(told == ("True", "False", "") and no_figures, "timeout", row)
    elif entry[0] == "error":
        want(told == ("False", "True", entry[1]) and no_figures, "error", row, "for", entry)
    else:
        want(told == ("False", "False", "") and row["time_unit"] == "ms", "success", row)
        want(float(row["completion_time"]) == float(entry[1][index]) and row["memory_usage"] == str(entry[2][index]), "figures", row, "for", entry)
    if "runtime_iteration" in row:
        want(row["runtime_iteration"] == str(index), "iteration", row, "is not", index)


def calls_of(log):
    calls = []
    for line in log:
        p = line.split("|", 4)
        if p[0] == "node":
            calls.append((p[1], int(p[2]), p[3], p[4]))
    return calls


def judge(s, log, rc, err, once_name, carried, rerun):
    """One run of a driver against its log. `carried`: rows of an earlier run to go over."""
    rep = s.rep
    crash = None
    calls = calls_of(log)
    for line in log:
        p = line.split("|")
        if p[0] == "limit":
            want(p[1] == str(s.limit), "limit", line)
    want(not os.path.exists(os.path.join(s.dir, "unplanned")), "too many runs", s.dir)
    want(rc is not None, "hang", "does not end")
    for key, nth, _n, prog in calls:
        measured(s, key, prog)
        rep.count("runs of programs")
    failed = [c for c in calls if s.plans[c[0]][c[1]][0] == "unknown"]
    tools = [l.split("|") for l in log if l.split("|")[0] in ("cargo", "wasabi")]
    stopped = [t for t in tools if f"{t[0]}+{t[1]}.{t[2]}" in os.listdir(os.path.join(s.dir, "fail"))]
    broken = bool(failed or stopped)
    want((rc != 0) == broken, "status", f"ends with {rc} after {failed + stopped}: {err[-1500:]}")
    if failed:
        want(calls[-1] == failed[0], "goes on", "after", failed[0])
    if stopped:
        want(tools[-1] == stopped[0], "goes on", "after", stopped[0])
    rep.count("broken off" if broken else "driver runs to the end")

    # 1: once
    rows, k = s.table(once_name), 0
    ran_once, success = [], {}
    expected = iter(carried or [])
    for row in rows:
        if rerun:
            old = next(expected, None)
            want(old is not None, "rerun", "a row too many", row)
            again = old["timeout"] == "True" and int(old["timeout_amount"]) < s.limit
            if not again:
                want(row == old, "rerun", "carries over", row, "for", old)
        if not rerun or again:
            want(k < len(calls), "once", "a row without a run", row)
            key, nth, n, _ = calls[k]
            k += 1
            labels(row, key)
            if rerun:
                want(all(row[c] == old[c] for c in ("runtime", "platform", "analysis", "input_program")), "rerun", row, "for", old)
            want(n == "1", "once", key, "run", n, "times")
            row_of(s, row, s.plans[key][nth], 0)
            ran_once.append(key)
            rep.count("single runs recorded")
        if row["platform"] != "uninstrumented":
            success[row["platform"], row["input_program"]] = row["timeout"] == "False" and row["exception"] == "False"
    if not broken:
        if rerun:
            want(next(expected, None) is None, "rerun", "rows are lost")
        else:
            want(sorted(ran_once) == sorted(s.key(pl, a, p) for p in s.programs for pl, a in [("uninstrumented", None), ("Wasabi", "forward"), ("Wastrumentation", "forward")]), "once", "these ran once:", ran_once)

    rest = calls[k:]
    if broken and len(ran_once) < (len(s.programs) * 3 if not rerun else len(s.again)):
        want(len(rest) <= 1, "once", "runs without a row", rest)
        return True

    # 2: sizes
    combos = {("uninstrumented", "", p) for p in s.programs}
    for (pl, p), good in success.items():
        if good:
            combos |= {(pl, a, p) for a in s.analyses if pl == "Wastrumentation" or hooks(a)[1] is not None}
    sizes = s.table("code-sizes.csv")
    have = {(x["platform"], x["analysis"], x["input_program"]) for x in sizes}
    if not broken:
        want(have == combos, "sizes", "are given for", sorted(have ^ combos))
        want(len(sizes) == len(have), "sizes", "are given more than once:", sizes)
        for x in sizes:
            where = s.key(x["platform"], x["analysis"] or None, x["input_program"]).replace("+", "/")
            path = os.path.join(s.cwd, "working-dir", "wasm-r3", where, x["input_program"] + ".wasm")
            want(x["size_bytes"] == str(os.path.getsize(path)), "sizes", x, os.path.getsize(path))
            rep.count("sizes recorded")

    # 3: times
    bench = s.table("executes-bench.csv")
    at, j, blocks = 0, 0, []
    while j < len(rest):
        key, timeouts, done = rest[j][0], 0, False
        blocks.append(split(key))
        for _ in range(s.runs):
            if j == len(rest) and broken:
                break
            want(j < len(rest) and rest[j][0] == key, "runs", key, "has too few runs")
            _, nth, n, _ = rest[j]
            want(n == str(s.inner), "runs", key, "is asked for", n)
            entry = s.plans[key][nth]
            j += 1
            if entry[0] == "unknown":
                break
            for i in range(s.inner if entry[0] == "ok" else 1):
                want(at < len(bench), "rows", "run", key, nth, "has no row")
                labels(bench[at], key)
                row_of(s, bench[at], entry, i)
                at += 1
                rep.count("measurements recorded")
            timeouts += entry[0] == "timeout"
            if entry[0] == "error" or timeouts >= s.patience:
                break
    want(at == len(bench) or broken, "rows", "without a run:", bench[at:])
    if not broken:
        want(set(blocks) == combos, "combinations", "measured and expected differ in", sorted(set(blocks) ^ combos))
        again = sorted({b for b in blocks if blocks.count(b) > 1})
        want(not again, "combinations", "measured more often than configured:", again)
    rep.saw((tuple(s.analyses), tuple(e[0] for key, nth, _, _ in calls for e in [s.plans[key][nth]])))
    return broken


PRELOAD = """
const fs = require('fs');
WebAssembly.instantiate = async (b, i) => {
  fs.appendFileSync(process.env.SEEN, 'instantiate|' + b.subarray(4).toString() + '\\n');
  return { instance: { exports: { _start() { fs.appendFileSync(process.env.SEEN, 'start\\n'); const t = performance.now(); while (performance.now() - t < 3); } } } };
};
"""


def wrappers(s):
    """The generated wrappers, in the real node with a WebAssembly that takes notes."""
    pre, seen = os.path.join(s.dir, "pre.cjs"), os.path.join(s.dir, "seen")
    open(pre, "w").write(PRELOAD)
    keys = sorted(set(c[0] for c in calls_of(s.log())))
    for key in s.r.sample(keys, min(2, len(keys))):
        platform, analysis, program = split(key)
        path = os.path.join(s.cwd, "working-dir", "wasm-r3", key.replace("+", "/"), program + ".cjs")
        n = s.r.choice([1, 2, 4])
        open(seen, "w").close()
        out = subprocess.run(["node", "-r", pre, path, str(n)], capture_output=True, text=True, env=dict(os.environ, SEEN=seen), timeout=60)
        want(out.returncode == 0, "wrapper", key, out.stderr)
        did = open(seen).read().splitlines()
        want(len(did) == 2 * n and did[1::2] == ["start"] * n, "wrapper", key, n, "runs are", did)
        for d in did[::2]:
            measured(s, key, d.split("|", 1)[1])
        lines = out.stdout.splitlines()
        t = [re.fullmatch(re.escape(program) + r" \(run (\d+)\): (\d+(\.\d+)?)", l) for l in lines]
        m = [l for l in lines if re.fullmatch(re.escape(program) + r" memory usage in bytes: \d+", l)]
        t = [x for x in t if x]
        want(len(lines) == 2 * n and len(m) == n and [x.group(1) for x in t] == [str(i + 1) for i in range(n)], "wrapper", key, "prints", lines)
        want(all(3 <= float(x.group(2)) for x in t), "wrapper", key, "took less time than its program:", lines)
        s.rep.count("wrappers run in node")


def case(i, r, rep):
    s = Scenario(i, r, rep)
    try:
        rep.evals += 1
        s.extend_plans(lambda pl, a, _p: pl == "uninstrumented" or a == "forward")
        if r.random() < 0.25:
            tool, a, p = r.choice(["cargo", "wasabi"]), r.choice(s.analyses), r.choice(s.programs)
            open(os.path.join(s.dir, "fail", f"{tool}+{a}+{p}.0"), "w").close()
        broken = judge(s, *reorder(s.drive("bench.py")), "executes-once.csv", None, False)
        if len(rep.samples) < 1:
            rep.samples.append(s.describe() + ": " + "; ".join(s.log())[:600])
        again = r.random()
        if broken or again < 0.2:
            # once more in the same place
            replan(s)
            if os.listdir(os.path.join(s.dir, "fail")):
                rep.count("again after a failed tool")
            if not judge(s, *reorder(s.drive("bench.py")), "executes-once.csv", None, False):
                wrappers(s)
        elif again < 0.6:
            old = s.table("executes-once.csv")
            for _ in range(r.choice([1, 1, 2])):
                s.limit = r.choice([1, 7, 30, 300])
                replan(s, {(x["platform"], x["analysis"] or None, x["input_program"]) for x in old if x["timeout"] == "True" and int(x["timeout_amount"]) < s.limit})
                rep.count("driver reruns")
                judge(s, *reorder(s.drive("rebench.py")), "executes-once.csv.rerun.csv", old, True)
        elif again < 0.8:
            wrappers(s)
    except Bad as e:
        rep.violation(e.args[0].replace(" ", "-"), f"{e.args[1]}\n{s.describe()}\n" + "\n".join(s.log()[-60:]))
    finally:
        shutil.rmtree(s.dir, ignore_errors=True)


def reorder(x):
    rc, err, log = x
    return log, rc, err


def replan(s, again=None):
    """Outcomes from now on: what was planned and not used is dropped. `again`: single runs to repeat; else a new campaign."""
    for f in os.listdir(os.path.join(s.dir, "plan")):
        os.unlink(os.path.join(s.dir, "plan", f))
    for k in s.plans:
        count = os.path.join(s.dir, "count", k)
        del s.plans[k][int(open(count).read()) if os.path.exists(count) else 0:]
    for f in ["code-sizes.csv", "executes-bench.csv"] + ([] if again is not None else ["executes-once.csv"]):
        path = os.path.join(s.cwd, "working-dir", f)
        if os.path.exists(path):
            os.unlink(path)
    s.again = again or set()
    s.extend_plans((lambda *c: c in s.again) if again is not None else (lambda pl, a, _p: pl == "uninstrumented" or a == "forward"))


if __name__ == "__main__":
    rule = "one evaluation = one benchmark campaign (bench.py, sometimes followed by another or by rebench.py) with scripted tools; distinct: the outcomes its runs had"
    main("B01", case, rule, (400, 6000), (60, 600))
