#!/usr/bin/env python3
"""Mutation testing of the checks (not part of any check): small mechanical changes of mito's
sources, one at a time, in scratch copies; lists the ones that no check of the file notices.
usage: mutate.py [--jobs N] [--max PER_FILE] [--seed S] [--only REGEX] [--out FILE]"""
import argparse, concurrent.futures as cf, json, os, pathlib, queue, random, re, shutil, subprocess, sys, tempfile, time

V = pathlib.Path(__file__).resolve().parent.parent
sys.path.insert(0, str(V))
from checks_config import CHECKS  # noqa: E402
MAP = [
    (r"utilities/(Segmented|Invalid)", ["U01", "U02"]),
    (r"utilities/Repository", ["U02"]),
    (r"utilities/(Shared|Shareable|Std|utilities|Singleton|NamedClass)", ["U03", "U02"]),
    (r"topology/FlipDiagonal", ["T04"]),
    (r"topology/", ["T01", "T02", "T03", "T04", "B03"]),
    (r"math/", ["M01"]),
    (r"tensor/", ["A01", "A02"]),
    (r"materials/", ["H01"]),
    (r"functions/", ["F02", "F01"]),
    (r"fields/", ["D01", "A02", "G02"]),
    (r"coordinates/", ["G01"]),
    (r"geometry/.*(metric|differential)", ["G02", "D01"]),
    (r"geometry/(GeometricSimplex|PointCloud|Reference|utilities|Point|factories)", ["G03", "B01", "Q03"]),
    (r"geometry/", ["G01", "G02", "D01", "G03"]),
    (r"mesh/(Boundary|Filter)", ["B02", "B01"]),
    (r"mesh/metis", ["B04"]),
    (r"mesh/tetra", ["B03"]),
    (r"mesh/", ["B01", "B02", "B03"]),
    (r"io/summit", ["B05"]),
    (r"io/vtk", ["V01"]),
    (r"quadrature/", ["Q02", "Q01"]),
    (r"manifolds/", ["Q01", "Q03"]),
    (r"discrete/", ["R01"]),
    (r"constraints/", ["E03"]),
    (r"fem/elements/.*Discretizer", ["E03"]),
    (r"fem/elements/", ["E01", "E02"]),
    (r"fem/blocks/", ["E02"]),
    (r"fem/(norms|FemField)", ["E05"]),
    (r"fem/(Weakform|DiscreteSystem|localize)", ["E04", "S01", "E05"]),
    (r"fem/", ["E03", "E04", "E05"]),
    (r"solvers/|matrix_solvers/", ["S01"]),
]
SKIP = re.compile(r"/(public|api|externals|forward\d*)\.h$|quadrature_tables|simulation/|journal/")


def strip(line):
    return re.sub(r"//.*$", "", line)


def mutants(text, rng):
    """(line number, operator, new line)"""
    res = []
    comment = False
    for i, line in enumerate(text.split("\n")):
        code = strip(line)
        s = code.strip()
        if "/*" in code and "*/" not in code:
            comment = True
        if comment:
            if "*/" in code:
                comment = False
            continue
        if not s or s.startswith(("#", "using ", "template", "friend ", "assert", "static_assert", "namespace",
                                  "class ", "struct ", "concept", "requires", "public:", "private:")):
            continue

        def put(op, a, b):
            res.append((i, op, line[:a[0]] + b + line[a[1]:]))

        for m in re.finditer(r" (\+|-|\*|/) ", code):
            # (not declarations such as "T * x")
            o = m.group(1)
            if o == "*" and (re.match(r"^\s*[\w:<>,]+ \* \w+( =|;|\))", code) or "&" in code):
                continue
            put("arith", m.span(), {"+": " - ", "-": " + ", "*": " / ", "/": " * "}[o])
        for m in re.finditer(r"(\+=|-=|\*=)", code):
            put("assign", m.span(), {"+=": "-=", "-=": "+=", "*=": "/="}[m.group(1)])
        for m in re.finditer(r"(==|!=|<=|>=)", code):
            if "operator" in code:
                continue
            put("rel", m.span(), {"==": "!=", "!=": "==", "<=": "<", ">=": ">"}[m.group(1)])
        for m in re.finditer(r" (<|>) ", code):
            if "<" in s and ">" in s and m.group(1) == ">":
                continue
            put("rel", m.span(), {"<": " <= ", ">": " >= "}[m.group(1)])
        for m in re.finditer(r"(&&|\|\|)", code):
            if m.group(1) == "&&" and re.search(r"\w(\.\.\.)? ?&& \w+[,)]", code) and "if" not in code and "return" not in code:
                continue
            put("logic", m.span(), {"&&": "||", "||": "&&"}[m.group(1)])
        for m in re.finditer(r"(\+\+|--)", code):
            put("inc", m.span(), {"++": "--", "--": "++"}[m.group(1)])
        for m in re.finditer(r"!(?=[\w(*])", code):
            put("not", m.span(), "")
        for m in re.finditer(r"(?<![\w.<\[])(\d+(?:\.\d+)?)(?![\w.])", code):
            t = m.group(1)
            put("const", m.span(), repr(float(t) + 0.5) if "." in t else str(int(t) + 1))
            if t == "1":
                put("const", m.span(), "0")
        for m in re.finditer(r"(?<=[\[<{ ,])(\d)(?=[\]>,} ])", code):
            t = int(m.group(1))
            put("index", m.span(), str(t + 1))
            if t:
                put("index", m.span(), str(t - 1))
        for m in re.finditer(r"(?<=return )-|(?<=[(,{] )-(?=[\w(])|(?<=[({])-(?=[\w(])|(?<== )-(?=[\w(])", code):
            put("minus", m.span(), "")
        for m in re.finditer(r"\b(true|false)\b", code):
            put("bool", m.span(), {"true": "false", "false": "true"}[m.group(1)])
        for m in re.finditer(r"\bif (constexpr )?\((.*)\)( \{)?$", code.rstrip()):
            if not m.group(1):
                for b in ("true", "false"):
                    put("cond", m.span(2), b)
        # arguments of a call swapped
        for m in re.finditer(r"\(([\w.\->\[\]:()]+?), ([\w.\->\[\]:()]+?)\)", code):
            if m.group(1).count("(") == m.group(1).count(")") and m.group(2).count("(") == m.group(2).count(")") \
                    and not re.search(r"\b(const|auto|typename|int|class)\b", code[:m.start()].split("(")[-1]):
                put("swap", m.span(), f"({m.group(2)}, {m.group(1)})")
        # a statement left out
        if s.endswith(";") and not re.match(r"(return|using|auto|const|constexpr|static|break|continue|typedef|int|double|bool|inline|virtual|explicit|~|throw|std::\w+ \w+)", s) \
                and re.match(r"[\w:.\->\[\]*<>+()]+(\(| [-+*/]?= )", s) and s.count("(") == s.count(")") \
                and not re.search(r"\) (const|noexcept|=)", s):
            put("delete", (len(line) - len(line.lstrip()), len(code.rstrip())), ";")
        if s in ("break;", "continue;"):
            put("delete", (len(line) - len(line.lstrip()), len(code.rstrip())), ";")
        if re.match(r"return [\w_]+;$", s) is None and s == "return;":
            put("delete", (len(line) - len(line.lstrip()), len(code.rstrip())), ";")
    return res


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--jobs", type=int, default=8)
    ap.add_argument("--max", type=int, default=12)
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--only", default=".")
    ap.add_argument("--not", dest="unless", default="^$")
    ap.add_argument("--out", default="/tmp/mutants.jsonl")
    ap.add_argument("--list", action="store_true")
    ap.add_argument("--variant", default="O0")
    a = ap.parse_args()
    rng = random.Random(a.seed)
    work = []
    lib = pathlib.Path("/repo/lib/mito")
    for f in sorted(lib.rglob("*")):
        rel = str(f.relative_to(lib))
        if f.suffix not in (".h", ".icc", ".cc") or SKIP.search("/" + rel) or not re.search(a.only, rel) or re.search(a.unless, rel):
            continue
        checks = next((c for r, c in MAP if re.search(r, rel)), None)
        if not checks:
            continue
        ms = mutants(f.read_text(), rng)
        rng.shuffle(ms)
        for m in ms[:a.max]:
            work.append((rel, checks) + m)
    rng.shuffle(work)
    print(len(work), "mutants", flush=True)
    if a.list:
        for w in work:
            print(w[0], w[2] + 1, w[3], w[4].strip())
        return
    root = pathlib.Path(tempfile.mkdtemp(prefix="mutate."))
    slots = queue.Queue()
    for k in range(a.jobs):
        d = root / f"w{k}"
        (d / "repo").mkdir(parents=True)
        shutil.copytree("/repo/lib", d / "repo/lib")
        shutil.copytree(V, d / "verif", ignore=shutil.ignore_patterns("seeded", "build", ".git", "evidence", "replays"))
        slots.put(d)
    out = open(a.out, "a")

    def one(w):
        rel, checks, i, op, new = w
        d = slots.get()
        f = d / "repo/lib/mito" / rel
        keep = f.read_text()
        t0 = time.time()
        try:
            lines = keep.split("\n")
            old = lines[i]
            lines[i] = new
            f.write_text("\n".join(lines))
            verdict = "SURVIVED"
            for c in checks:
                env = dict(os.environ, MITO_REPO=str(d / "repo"), PBT_JOBS="1", VERIF_TIER="quick")
                v = a.variant + (".0" if "gen" in CHECKS[c] else "")
                try:
                    r = subprocess.run(["python3", str(d / "verif/check.py"), c, "--variant", v], env=env,
                                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                                       errors="replace", timeout=600)
                    rc, txt = r.returncode, r.stdout
                except subprocess.TimeoutExpired:
                    rc, txt = 2, "timeout"
                if rc == 1 and "-build.txt" in txt:
                    verdict = "nobuild"
                    break
                if rc == 1 and "VIOLATION property" in txt:
                    verdict = "killed " + c
                    break
                if rc:
                    verdict = "NOANSWER " + c + " " + txt[-300:]
                    break
            out.write(json.dumps(dict(file=rel, line=i + 1, op=op, old=old.strip(), new=new.strip(), verdict=verdict,
                                      s=round(time.time() - t0))) + "\n")
            out.flush()
        finally:
            f.write_text(keep)
            slots.put(d)

    try:
        with cf.ThreadPoolExecutor(a.jobs) as ex:
            list(ex.map(one, work))
    finally:
        shutil.rmtree(root, ignore_errors=True)


if __name__ == "__main__":
    main()
