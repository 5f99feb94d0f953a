#!/usr/bin/env python3
"""Try planted bugs in scratch copies (not part of any check).
usage: seedtest.py [--checks ID,ID|none] [--no-tests] NAME...
For every seeded/NAME: the patch applies to HEAD, builds, passes the stable tests, demo.sh tells the
two trees apart, and which of the checks report it."""
import argparse, json, os, pathlib, shutil, subprocess, sys, tempfile

V = pathlib.Path(__file__).resolve().parent.parent


def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--checks")
    ap.add_argument("--no-tests", action="store_true")
    ap.add_argument("--no-demo", action="store_true")
    ap.add_argument("names", nargs="+")
    a = ap.parse_args()
    for name in a.names:
        d = V / "seeded" / name
        meta = json.loads((d / "meta.json").read_text())
        out = [name]
        with tempfile.TemporaryDirectory(prefix="seedtest.") as t:
            t = pathlib.Path(t)
            repo = t / "repo"
            run(["git", "clone", "-q", "/repo", str(repo)])
            r = run(["git", "apply", str(d / "patch.diff")], cwd=repo)
            if r.returncode:
                print(name, "DOES NOT APPLY", r.stdout)
                continue
            if not a.no_tests:
                for s in ("build.sh", "test.sh"):
                    txt = pathlib.Path("/opt/vp", s).read_text().replace("/opt/vp/build.sh", f"{t}/build.sh")
                    (t / s).write_text(txt.replace("=/repo", f"={repo}").replace("-S /repo", f"-S {repo}"))
                r = run(["bash", str(t / "test.sh"), str(t / "o.json")])
                base = json.load(open("/opt/vp/BASELINE.json"))
                base = base["stable"] if isinstance(base, dict) else base
                got = json.load(open(t / "o.json"))["passed"] if (t / "o.json").exists() else []
                missing = sorted(set(base) - set(got))
                out.append("tests ok" if not missing else f"TESTS MISSING {missing[:3]}")
                if missing:
                    out.append(r.stdout[-1500:])
            if not a.no_demo:
                # the folder lies elsewhere when it counts
                dd = t / "demo"
                shutil.copytree(d, dd)
                for f in list(dd.glob("*.diff")) + [dd / "meta.json"]:
                    f.unlink()
                r0 = run(["bash", str(dd / "demo.sh")], cwd="/repo")
                r1 = run(["bash", str(dd / "demo.sh")], cwd=repo)
                out.append(f"demo {r0.returncode}/{r1.returncode}")
                if r0.returncode or not r1.returncode:
                    out.append("BAD DEMO " + r0.stdout[-800:] + r1.stdout[-800:])
                out.append("| " + r1.stdout[-200:].strip().replace("\n", " ; "))
            checks = a.checks.split(",") if a.checks else [meta["property"]]
            if a.checks == "none":
                checks = []
            v = t / "verif"
            run(["bash", "-c", f"mkdir {v}; cp -r {V}/harness {V}/*.py {V}/known_findings.txt {v}/"])
            for c in checks:
                r = run([sys.executable, str(v / "check.py"), c], env=dict(os.environ, MITO_REPO=str(repo)))
                out.append(f"\n   {c}: exit {r.returncode} " + r.stdout.strip()[-500:].replace("\n", "\n      "))
        print(" ".join(out), flush=True)


main()
