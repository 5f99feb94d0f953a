#!/usr/bin/env python3
"""Run the check of one property:  ./check.py ID [--tier quick|thorough] [--seed N]

Builds the property's harness from /repo's working tree, runs the generated-input search on all
cores, shrinks and replays what fails, rewrites evidence/<ID>.json.

exit 0  the property held on everything explored (listed findings are printed as KNOWN-FINDING)
exit 1  VIOLATION property=<ID> replay=<path>
exit 2  the check itself could not do its work (no answer)
"""
import argparse, concurrent.futures as cf, hashlib, json, os, pathlib, re, shutil, subprocess, sys, tempfile, threading, time

VERIF = pathlib.Path(__file__).resolve().parent
REPO = pathlib.Path(os.environ.get("MITO_REPO", "/repo"))
sys.path.insert(0, str(VERIF))
from checks_config import CHECKS, VARIANTS, COMMON_FLAGS, LIBSETS  # noqa: E402

CXX = "g++-14"
NCPU = int(os.environ.get("PBT_JOBS", 0)) or os.cpu_count() or 8


def tree_hash():
    h = hashlib.sha256()
    for root in (REPO / "lib", VERIF / "harness"):
        for p in sorted(root.rglob("*")):
            if p.is_file():
                h.update(str(p).encode())
                h.update(p.read_bytes())
    h.update((VERIF / "checks_config.py").read_bytes())
    return h.hexdigest()[:16]


def make_version_header(build):
    """lib/mito/version.h is generated by the build system; make our own copy of it"""
    gen = build / "gen" / "mito"
    gen.mkdir(parents=True, exist_ok=True)
    src = REPO / "lib" / "mito" / "version.h.in"
    text = src.read_text() if src.exists() else ""
    text = re.sub(r"@[A-Za-z_]*MAJOR[A-Za-z_]*@", "1", text)
    text = re.sub(r"@[A-Za-z_]*MINOR[A-Za-z_]*@", "0", text)
    text = re.sub(r"@[A-Za-z_]*(MICRO|PATCH)[A-Za-z_]*@", "0", text)
    text = re.sub(r"@[A-Za-z_]*@", "0", text)
    out = gen / "version.h"
    if not out.exists() or out.read_text() != text:
        out.write_text(text)
    return build / "gen"


class CompileError(Exception):
    def __init__(self, cmd, log):
        super().__init__(log)
        self.cmd, self.log = cmd, log


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                          errors="replace", **kw)


def variant_of(key):
    """a program is named variant or, when part of it is generated, variant.batch"""
    return VARIANTS[key.split(".")[0]]


def generate(cfg, variants, build, seed):
    """the generated part of the programs (one header per batch)"""
    dirs = {}
    for v in variants:
        if "gen" in cfg:
            batch = v.split(".")[1]
            d = build / f"batch{batch}"
            d.mkdir(exist_ok=True)
            out = d / "generated.h"
            if not out.exists():
                r = sh([sys.executable, str(VERIF / "harness" / cfg["gen"]["script"]),
                        "--seed", str(seed), "--batch", batch, "--out", str(out)]
                       + cfg["gen"]["args"])
                if r.returncode:
                    raise RuntimeError(r.stdout)
            dirs[v] = [f"-I{d}"]
    return dirs


def rejected_shapes(log, build):
    """{batch: numbers of the generated functions that the compiler complains about}"""
    res = {}
    for m in set(re.findall(r"/batch(\d+)/generated\.h:(\d+)", log)):
        b, line = m[0], int(m[1])
        lines = (build / f"batch{b}" / "generated.h").read_text().splitlines()
        for i in range(min(line, len(lines)) - 1, -1, -1):
            f = re.match(r"static void shape_(\d+)\(", lines[i])
            if f:
                res.setdefault(b, set()).add(int(f.group(1)))
                break
    return res


def compile_generated(pid, cfg, variants, build, seed):
    """like compile_all; generated functions that the compiler rejects (expressions that mito does
    not support) are left out, as long as they are few"""
    skip = {}
    while True:
        try:
            return compile_all(pid, cfg, variants, build, seed), skip
        except CompileError as e:
            new = rejected_shapes(e.log, build)
            if not new:
                raise
            for b, fs in new.items():
                skip[b] = skip.get(b, set()) | fs
                if sum(map(len, skip.values())) > 2:
                    raise
                d = build / f"batch{b}"
                sh([sys.executable, str(VERIF / "harness" / cfg["gen"]["script"]),
                    "--seed", str(seed), "--batch", b, "--out", str(d / "generated.h"),
                    "--skip", ",".join(map(str, sorted(skip[b])))] + cfg["gen"]["args"])


def compile_all(pid, cfg, variants, build, seed):
    """compile every translation unit of every variant, in parallel; returns {variant: binary}"""
    gen = make_version_header(build)
    extra_dirs = generate(cfg, variants, build, seed)
    libset = LIBSETS[cfg.get("libs", "base")]
    jobs, plan = [], {}
    for v in variants:
        objs = []
        for tu in ["main.cc"] + cfg["src"]:
            src = VERIF / "harness" / tu
            obj = build / f"{pathlib.Path(tu).stem}.{v}.o"
            cmd = ([CXX] + COMMON_FLAGS + variant_of(v)["cxx"]
                   + [x.format(harness=VERIF / "harness") for x in cfg.get("cxx", [])] + libset["cxx"]
                   + extra_dirs.get(v, [])
                   + [f"-I{VERIF/'harness'}", f"-I{REPO/'lib'}", f"-I{gen}"]
                   + (["-include", str(VERIF / "harness" / "compat.h")] if tu != "main.cc" else [])
                   + ["-c", str(src), "-o", str(obj)])
            jobs.append((cmd, obj))
            objs.append(obj)
        for extra in libset.get("repo_src", []):
            src = REPO / extra
            obj = build / f"repo_{pathlib.Path(extra).stem}.{v}.o"
            cmd = ([CXX] + COMMON_FLAGS + variant_of(v)["cxx"] + libset["cxx"]
                   + [f"-I{REPO/'lib'}", f"-I{gen}",
                      "-include", str(VERIF / "harness" / "compat.h"),
                      "-c", str(src), "-o", str(obj)])
            jobs.append((cmd, obj))
            objs.append(obj)
        plan[v] = objs

    def one(job):
        cmd, obj = job
        if obj.exists():
            return None
        tmp = str(obj) + ".tmp.o"
        c = cmd[:-1] + [tmp]
        r = sh(c, timeout=840)
        if r.returncode:
            # once more: a compiler that was ended for lack of memory is not an answer
            if " error: " not in r.stdout:
                r = sh(c, timeout=840)
            if r.returncode:
                raise CompileError(" ".join(cmd), r.stdout)
        os.replace(tmp, obj)
        return None

    with cf.ThreadPoolExecutor(NCPU) as ex:
        try:
            for f in [ex.submit(one, j) for j in jobs]:
                f.result()
        except BaseException:
            ex.shutdown(wait=False, cancel_futures=True)
            raise
    bins = {}
    for v in variants:
        exe = build / f"run.{v}"
        if not exe.exists():
            r = sh([CXX] + variant_of(v)["cxx"] + [str(o) for o in plan[v]] + ["-o", str(exe)]
                   + LIBSETS["base"]["ld"] + (libset["ld"] if libset is not LIBSETS["base"] else []))
            if r.returncode:
                raise CompileError("link", r.stdout)
        bins[v] = exe
    return bins


def control_compiles(build):
    """the toolchain and pyre work: a program without mito builds"""
    src = build / "control.cc"
    src.write_text("#include <vector>\n#include <pyre/tensor.h>\nint main(){return 0;}\n")
    r = sh([CXX] + COMMON_FLAGS + [str(src), "-o", str(build / "control")] + LIBSETS["base"]["ld"])
    return r.returncode == 0


def environment():
    env = dict(os.environ)
    env.update(
        ASAN_OPTIONS="abort_on_error=0:exitcode=99:detect_leaks=0:detect_stack_use_after_return=0:"
                     "allocator_may_return_null=1:hard_rss_limit_mb=6000",
        UBSAN_OPTIONS="print_stacktrace=0:halt_on_error=1:exitcode=98",
        OMPI_ALLOW_RUN_AS_ROOT="1", OMPI_ALLOW_RUN_AS_ROOT_CONFIRM="1",
        LD_LIBRARY_PATH="/opt/pyre/lib:" + env.get("LD_LIBRARY_PATH", ""))
    return env


def run_search(pid, bins, cfg, tier, seed, out_dir, env):
    """all variants, sharded over the cores"""
    t = cfg["tiers"][tier]
    tasks = []
    for v, exe in bins.items():
        shards = t.get("shards", NCPU)
        share = (variant_of(v).get("share", 1.0)
                 * cfg.get("share", {}).get(v.split(".")[0], 1.0))
        cases = max(shards, int(t["cases"] * share))
        for s in range(shards):
            tasks.append((v, exe, s, shards, cases, t["time"]))

    known = load_known(pid)
    stop = threading.Event()

    def one(task):
        v, exe, s, shards, cases, tm = task
        if stop.is_set():
            # a failure that is not listed was found: it is time to report it
            return v, dict(seed=seed, wall_s=0, time_exhausted=True, properties=[], failures=[]), ""
        out = out_dir / f"out.{v}.{s}.json"
        if out.exists():
            out.unlink()
        cmd = [str(exe), "--seed", str(seed), "--cases", str(cases), "--time", str(tm),
               "--shard", f"{s}/{shards}", "--out", str(out)]
        if "batch" in cfg:
            cmd += ["--batch", str(cfg["batch"])]
        if "case_timeout" in cfg:
            cmd += ["--case-timeout", str(cfg["case_timeout"])]
        r = sh(cmd, env=env, cwd=str(out_dir))
        if not out.exists():
            return v, None, f"{' '.join(cmd)}\nexit {r.returncode}\n{r.stdout[-3000:]}"
        doc = json.loads(out.read_text())
        if any(not any(k[0].search(f"{f['property']}: {f['message']}") for k in known)
               for f in doc["failures"]):
            stop.set()
        return v, doc, r.stdout

    with cf.ThreadPoolExecutor(NCPU) as ex:
        return list(ex.map(one, tasks))


def load_known(pid):
    """lines 'finding: property=ID match=<regex> :: text' of known_findings.txt"""
    res = []
    f = VERIF / "known_findings.txt"
    if f.exists():
        for line in f.read_text().splitlines():
            m = re.match(r"finding:\s+property=(\S+)\s+match=(.+?)\s+::\s+(.*)$", line)
            if m and m.group(1) == pid:
                res.append((re.compile(m.group(2)), m.group(3)))
    return res


def write_replay(pid, variant, seed, f, path):
    lines = [f"property {f['property']}", f"size {f['size']}"]
    if f["mode"] == "history":
        lines.append(f"history {seed} {f['from']} {f['to']} {f['cases']}")
    else:
        lines.append("choices " + " ".join(str(c) for c in f["choices"]))
    text = "\n".join(lines) + "\n"
    text += f"# check {pid}, variant {variant}, seed {seed}\n"
    text += f"# replay with: python3 {VERIF}/check.py {pid} --replay {path}\n"
    text += "# " + f["message"].replace("\n", "\n# ") + "\n"
    text += "# case:\n# " + f["notes"].replace("\n", "\n# ") + "\n"
    path.write_text(text)


def write_evidence(pid, cfg, tier, seed, coverage, wall, violations):
    ev = VERIF / "evidence"
    ev.mkdir(exist_ok=True)
    doc = dict(property=pid, tier=tier, seed=seed, level=cfg.get("level", "exploration"),
               coverage=coverage, wall_s=round(wall, 2), violations=violations,
               assumptions=cfg.get("assumptions", []))
    (ev / f"{pid}.json").write_text(json.dumps(doc, indent=1) + "\n")


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("id")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--replay")
    ap.add_argument("--variant")
    ap.add_argument("--build-only", action="store_true")
    a = ap.parse_args()
    pid, tier, seed = a.id, a.tier, a.seed
    cfg = CHECKS[pid]
    t0 = time.time()
    variants = [a.variant] if a.variant else cfg["tiers"][tier].get("variants", cfg["variants"])
    if "gen" in cfg and not a.variant:
        n = cfg["tiers"][tier].get("batches", 1)
        variants = [f"{v}.{b}" for b in range(n) for v in variants]
    if a.replay and "gen" in cfg:
        # the program that failed is generated again
        m = re.search(r"# check \S+, variant (\S+), seed (\d+)", open(a.replay).read())
        if m:
            variants, seed = [m.group(1)], int(m.group(2))
    base = VERIF / "build"
    base.mkdir(exist_ok=True)
    build = base / pid / (tree_hash() + (f"-{seed}" if "gen" in cfg else ""))
    if not build.exists():
        # older builds of this check are of no use any more
        if (base / pid).exists():
            for old in (base / pid).iterdir():
                shutil.rmtree(old, ignore_errors=True)
        build.mkdir(parents=True)
    replays = VERIF / "replays"
    replays.mkdir(exist_ok=True)
    env = environment()

    try:
        skipped = {}
        if "gen" in cfg:
            bins, skipped = compile_generated(pid, cfg, variants, build, seed)
        else:
            bins = compile_all(pid, cfg, variants, build, seed)
    except subprocess.TimeoutExpired:
        print(f"{pid}: compilation did not finish in time")
        return 2
    except CompileError as e:
        print(e.log[-4000:])
        if not control_compiles(build) or "Killed" in e.log or "No space left" in e.log \
                or "internal compiler error" in e.log:
            print(f"{pid}: the harness could not be built (toolchain)")
            return 2
        # the program that exercises the property through the public interface is rejected by the
        # compiler: nobody can observe the property any more
        path = replays / f"{pid}-build.txt"
        path.write_text("the check's program, written against mito's public interface, does not "
                        "compile against this tree\n" + e.cmd + "\n\n" + e.log)
        write_evidence(pid, cfg, tier, seed, dict(
            evaluations=1, distinct_nontrivial=0, rule=cfg["rule"],
            samples=["compilation of the harness: rejected"],
            explanation="the harness did not compile"), time.time() - t0, 1)
        print(f"VIOLATION property={pid} replay={path}")
        return 1
    t_build = time.time() - t0
    if a.build_only:
        print(f"{pid}: built in {t_build:.1f}s")
        return 0

    if a.replay:
        rc = 0
        for v, exe in bins.items():
            r = sh([str(exe), "--replay", a.replay], env=env)
            print(f"[{v}] exit {r.returncode}\n{r.stdout}")
            rc = max(rc, r.returncode)
        return rc

    # whatever a case leaves behind goes away with the run
    with tempfile.TemporaryDirectory(prefix="mito_check.") as scratch:
        env["TMPDIR"] = scratch
        results = run_search(pid, bins, cfg, tier, seed, build, env)
    env.pop("TMPDIR")
    broken = [log for _, doc, log in results if doc is None]
    if broken:
        print(broken[0])
        print(f"{pid}: a search process gave no result")
        return 2

    # merge
    evals = nontriv = discarded = nchecks = 0
    fps, labels, samples, per = set(), {}, [], {}
    exhausted = False
    for v, doc, _ in results:
        exhausted |= doc["time_exhausted"]
        for p in doc["properties"]:
            evals += p["evaluations"]
            nontriv += p["nontrivial"]
            discarded += p["discarded"]
            nchecks += p["checks"]
            fps.update((v, p["name"], f) for f in p["fingerprints"])
            q = per.setdefault(p["name"], dict(evaluations=0, nontrivial=0, checks=0))
            for k in q:
                q[k] += p[k]
            for k, n in p["labels"].items():
                labels[f"{p['name']}/{k}"] = labels.get(f"{p['name']}/{k}", 0) + n
            for s in p["samples"]:
                if sum(1 for x in samples if x["property"] == p["name"]) < 2:
                    samples.append(dict(property=p["name"], variant=v, case=s))
    coverage = dict(
        evaluations=evals,
        # a case that is run by two build variants is one distinct case
        distinct_nontrivial=len({(n, f) for _, n, f in fps}),
        rule=cfg["rule"], samples=samples or ["(no non-trivial case)"],
        assertions=nchecks, discarded=discarded, per_property=per, labels=labels,
        variants=list(bins), cut_short_by_time=exhausted, build_s=round(t_build, 1))

    # judge the failures
    known = load_known(pid)
    violations, seen_known = [], {}
    for v, doc, _ in results:
        for f in doc["failures"]:
            text = f"{f['property']}: {f['message']}"
            hit = next((k for k in known if k[0].search(text)), None)
            if hit:
                seen_known[hit[1]] = seen_known.get(hit[1], 0) + 1
                continue
            violations.append((v, f))
    for k in known:
        # every listed finding is reported on every run, whether or not the search met it again
        print(f"KNOWN-FINDING: property={pid} {k[1]}")

    # several shards usually meet the same failure: judge the one with the smallest reproduction
    # of each property first
    violations.sort(key=lambda x: (x[1]["mode"] != "case", len(x[1]["choices"]), x[1]["choices"]))
    confirmed, judged = [], {}
    for v, f in violations:
        key = (v, f["property"])
        if judged.get(key, 0) >= 2:
            continue
        judged[key] = judged.get(key, 0) + 1
        h = hashlib.sha256(json.dumps([v, f["property"], f["choices"], f["from"]]).encode()
                           ).hexdigest()[:10]
        path = replays / f"{pid}-{h}.txt"
        write_replay(pid, v, seed, f, path)
        ok = True
        for _ in range(3):
            try:
                r = sh([str(bins[v]), "--replay", str(path)], env=env, timeout=600)
                ok &= r.returncode == 1
            except subprocess.TimeoutExpired:
                ok = False
        if ok:
            confirmed.append((v, f, path))
            judged[key] = 2
        else:
            print(f"{pid}: a failure of {f['property']} ({v}) did not reproduce from {path}:\n"
                  f"{f['message']}")

    n_unconfirmed = len({(v, f["property"]) for v, f in violations}) - len(confirmed)
    wall = time.time() - t0
    coverage["known_findings_met"] = seen_known
    if skipped:
        coverage["generated_functions_rejected_by_the_compiler"] = {b: sorted(f) for b, f in skipped.items()}
    write_evidence(pid, cfg, tier, seed, coverage, wall, len(confirmed))
    print(f"{pid} [{tier}] seed {seed}: {evals} cases, {coverage['distinct_nontrivial']} distinct "
          f"non-trivial, {nchecks} assertions, build {t_build:.0f}s, total {wall:.0f}s"
          + (" (cut short by the time budget)" if exhausted else ""))
    if confirmed:
        for v, f, path in confirmed[:4]:
            print(f"--- {f['property']} ({v})\n{f['message']}\ncase:\n{f['notes']}")
        print(f"VIOLATION property={pid} replay={confirmed[0][2]}")
        return 1
    if n_unconfirmed:
        print(f"{pid}: failures were seen that do not reproduce: no answer")
        return 2
    if nontriv == 0:
        print(f"{pid}: no non-trivial case was run")
        return 2
    return 0


if __name__ == "__main__":
    sys.exit(main())
