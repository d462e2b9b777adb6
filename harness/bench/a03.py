"""A03: the shipped JavaScript analyses end up with what the events said."""
import json, os, subprocess
from vmon import REPO, NoVerdict, main

HERE = os.path.dirname(os.path.abspath(__file__))
DIR = os.path.join(REPO, "benchmarking-node", "input-analyses", "javascript")


def case(i, r, rep):
    long = i % 100 == 3
    seed = r.randrange(1 << 30)
    out = subprocess.run(["node", os.path.join(HERE, "a03.cjs"), DIR, str(seed), "1" if long else "20", "long" if long else "short"], capture_output=True, text=True)
    if out.returncode:
        raise NoVerdict(out.stderr[-2000:])
    o = json.loads(out.stdout.splitlines()[-1])
    rep.evals += o["evals"]
    rep.counts.update(o["counts"])
    rep.count("streams longer than a million" if long else "streams", 1 if long else 20)
    for u in o["unknown"]:
        rep.count(f"no model for {u}")
    for s in o["seen"]:
        rep.saw(s)
    if i == 0:
        rep.samples = o["seen"][:3]
    for s, d in o["violations"]:
        rep.violation(s, f"node a03.cjs {DIR} {seed}\n{d}")


if __name__ == "__main__":
    main("A03", case, "one evaluation = one stream of events given to one analysis and its result compared; distinct: results expected", (200, 4000), (50, 500))
