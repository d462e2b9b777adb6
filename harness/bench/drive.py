"""Runs one of the benchmark scripts with the scenario's settings; a stand-in that says it hangs is out of time at once."""
import json, os, runpy, subprocess, sys, time

scn = os.environ["SCN"]
script, settings = sys.argv[1], json.loads(sys.argv[2])
sys.argv = [script]
sys.path[0] = os.getcwd()
hang = os.path.join(scn, "hangs")


def patch(name):
    real = getattr(subprocess.Popen, name)

    def patched(self, *a, timeout=None, **k):
        args = list(a)
        if timeout is None and len(args) == (2 if name == "communicate" else 1):
            timeout = args.pop()
        if timeout is None:
            return real(self, *args, **k)
        while True:
            try:
                return real(self, *args, timeout=0.02, **k)
            except subprocess.TimeoutExpired as e:
                args = args[:0] if name == "communicate" else args
                if os.path.exists(hang):
                    pid = open(hang).read().strip()
                    if pid:
                        os.unlink(hang)
                        with open(os.path.join(scn, "log"), "a") as f:
                            f.write(f"limit|{timeout}\n")
                        try:
                            os.kill(int(pid), 9)
                        except ProcessLookupError:
                            pass
                        raise subprocess.TimeoutExpired(self.args, timeout, output=e.output, stderr=e.stderr) from None

    setattr(subprocess.Popen, name, patched)


patch("communicate")
patch("wait")
for module, values in settings.items():
    m = __import__(module)
    for k, v in values.items():
        if not hasattr(m, k):
            print(f"no setting {module}.{k}", file=sys.stderr)
            sys.exit(99)
        setattr(m, k, v)
if os.path.exists("config.py"):
    import config

    open(os.path.join(scn, "commit"), "w").write(config.bench_suite_commit + "\n")
runpy.run_path(script, run_name="__main__")
