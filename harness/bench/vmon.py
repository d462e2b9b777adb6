"""What vcommon is to the Rust monitors: verdicts, evidence, known findings, parallel cases."""
import collections, json, multiprocessing, os, random, re, sys, time, traceback

VERIF = os.environ.get("VERIF_DIR") or os.path.abspath(os.path.join(os.path.dirname(__file__), "..", ".."))
REPO = os.environ.get("VERIF_REPO") or "/repo"


class Report:
    def __init__(self):
        self.counts = collections.Counter()
        self.maxima = {}
        self.seen = set()
        self.evals = 0
        self.samples = []
        self.violations = []

    def count(self, what, n=1):
        self.counts[what] += n

    def most(self, what, n):
        self.maxima[what] = max(self.maxima.get(what, 0), n)

    def saw(self, x):
        self.seen.add(hash(x))

    def violation(self, signature, detail):
        self.violations.append((signature, detail))


class NoVerdict(Exception):
    """The check could not find out."""


STOP = multiprocessing.Event()


def _one(args):
    case, seed, i = args
    rep = Report()
    if STOP.is_set():
        return i, rep, None
    try:
        case(i, random.Random(f"{seed}:{i}"), rep)
    except NoVerdict as e:
        return i, rep, f"{e}"
    except Exception:
        return i, rep, traceback.format_exc()
    return i, rep, None


def main(ident, case, rule, n, deadline, once=None):
    tier = sys.argv[2] if len(sys.argv) > 2 else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    start = time.time()
    n, deadline = (n[0], deadline[0]) if tier == "quick" else (n[1], deadline[1])
    known = {}
    for line in open(os.path.join(VERIF, "known_findings.txt")):
        m = re.match(r"known: property=(\S+) signature=(\S+) \| (.*)", line)
        if m and m.group(1) == ident:
            known[m.group(2)] = m.group(3)
    all_ = Report()

    def merge(i, r):
        all_.counts.update(r.counts)
        for k, v in r.maxima.items():
            all_.most(k, v)
        all_.seen |= r.seen
        all_.evals += r.evals
        if len(all_.samples) < 3:
            all_.samples += r.samples[: 3 - len(all_.samples)]
        for s, d in r.violations:
            all_.violations.append((s, f"case {i}\n{d}"))

    if once:
        r = Report()
        once(r)
        merge("once", r)
    only = os.environ.get("VERIF_CASE")
    cases = [int(only)] if only else range(n)
    with multiprocessing.Pool(min(8, os.cpu_count() or 4)) as pool:
        for i, r, trouble in pool.imap_unordered(_one, ((case, seed, i) for i in cases)):
            if trouble:
                print(f"error: case {i}: {trouble}", file=sys.stderr)
                STOP.set()
                pool.close()
                pool.join()
                sys.exit(2)
            merge(i, r)
            if time.time() - start > deadline or len({s for s, _ in all_.violations} - set(known)) >= 5:
                STOP.set()
    fresh, hit = {}, set()
    for s, d in all_.violations:
        if s in known:
            hit.add(s)
        else:
            fresh.setdefault(s, d)
    for s in sorted(hit):
        print(f"KNOWN-FINDING: property={ident} {known[s]}")
    os.makedirs(os.path.join(VERIF, "work", "replay"), exist_ok=True)
    for k, (s, d) in enumerate(fresh.items()):
        path = os.path.join(VERIF, "work", "replay", f"{ident}-{k + 1}.txt")
        with open(path, "w") as f:
            f.write(f"property {ident}\nsignature {s}\nseed {seed} tier {tier} (rerun: VERIF_SEED={seed} VERIF_CASE=<case> bash check.sh {ident} {tier})\n{d}\n")
        print(f"VIOLATION property={ident} replay={path}")
    observed = dict(sorted({**all_.counts, **all_.maxima}.items()))
    json.dump(
        {
            "property": ident, "tier": tier, "seed": seed, "level": "exploration",
            "coverage": {"evaluations": all_.evals, "distinct_nontrivial": len(all_.seen), "rule": rule,
                         "samples": all_.samples or ["none"], "observed": observed},
            "assumptions": [], "violations": len(fresh), "wall_s": round(time.time() - start, 2),
        },
        open(os.path.join(VERIF, "evidence", f"{ident}.json"), "w"),
    )
    if fresh:
        sys.exit(1)
    if all_.evals == 0:
        print("error: nothing observed", file=sys.stderr)
        sys.exit(2)
    print(f"HELD property={ident} evaluations={all_.evals} distinct={len(all_.seen)} wall={time.time() - start:.1f}s")
