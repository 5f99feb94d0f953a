#!/usr/bin/env python3
"""Generates programs that build random expressions of mito functions, next to the same expressions
over jets (harness/jet.h), which are evaluated without mito.

gen_functions.py --mode values|derivatives|fields --seed N --batch B --shapes K --out FILE
"""
import argparse, random

DOMAINS = {  # name: (library type, number of variables, accessor of variable i in the reference)
    "R": ("double", 1, lambda y, i: y),
    "V2": ("mt::vector_t<2>", 2, lambda y, i: f"{y}({i},0)"),
    "V3": ("mt::vector_t<3>", 3, lambda y, i: f"{y}({i},0)"),
    "M2": ("mt::matrix_t<2>", 4, lambda y, i: f"{y}({i // 2},{i % 2})"),
    # sets of coordinates: functions of them are fields
    "C1": ("Cart<1>", 1, lambda y, i: f"{y}({i},0)"),
    "C2": ("Cart<2>", 2, lambda y, i: f"{y}({i},0)"),
    "C3": ("Cart<3>", 3, lambda y, i: f"{y}({i},0)"),
}


class Shape:
    """the expressions of one function; kinds: "S", ("V", n), ("M", r, c)"""

    def __init__(self, rng, diff):
        self.rng, self.diff, self.nk, self.ny = rng, diff, 0, 0
        self.ops = {}

    def op(self, name):
        self.ops[name] = self.ops.get(name, 0) + 1

    def k(self):
        self.nk += 1
        return f"k[{self.nk - 1}]"

    def y(self):
        self.ny += 1
        return f"y{self.ny}"

    # constants -------------------------------------------------------------------------------
    def kvec(self, n):
        ks = [self.k() for _ in range(n)]
        return (f"vec<{n}>({', '.join(ks)})",
                f"jet::fill<D,{n},1>({{{{{', '.join('S_(' + x + ')' for x in ks)}}}}})")

    def kmat(self, r, c):
        ks = [self.k() for _ in range(r * c)]
        return (f"mat<{r},{c}>({', '.join(ks)})",
                f"jet::fill<D,{r},{c}>({{{{{', '.join('S_(' + x + ')' for x in ks)}}}}})")

    def kscal(self):
        if self.rng.random() < 0.15:
            i = self.rng.choice([2, 3, -2])
            return f"({i})", f"S_({i})"
        x = self.k()
        return x, f"S_({x})"

    # scalar-valued functions ------------------------------------------------------------------
    def S(self, dom, y, depth, force=None):
        X, D, acc = DOMAINS[dom]
        rng = self.rng
        if depth <= 0:
            if force == "constant" or force is None and rng.random() < 0.25:
                self.op("constant")
                c = self.k()
                return f"mf::constant<{X}>({c})", f"S_({c})"
            if dom == "R":
                n = rng.choice([1, 1, 2, 3])
                self.op("power")
                return f"mf::pow<{n}>", f"jet::pow<{n}>({y})"
            i = rng.randrange(D)
            self.op("component")
            return f"mf::component<{X},{i}>", acc(y, i)
        d = depth - 1
        u = lambda: self.S(dom, y, rng.choice([d, d, max(0, d - 1)]))
        ops = ["add", "sub", "mul", "cmul", "mulc", "cadd", "addc", "csub", "subc", "divc", "neg",
               "lib", "lib", "lib", "div", "cdiv", "sum", "lincomb", "dot", "at", "chain", "chain", "chain1"]
        if not self.diff:
            ops += ["det", "functor", "mat_at_const"]
        if self.diff and dom in ("R", "C1"):
            # mito has no chain rule through vector-valued functions of a scalar
            ops = [p for p in ops if p != "chain"]
        o = force or rng.choice(ops)
        self.op(o)
        if o in ("add", "sub", "mul"):
            a, b = u(), u()
            s = {"add": "+", "sub": "-", "mul": "*"}[o]
            return f"({a[0]} {s} {b[0]})", f"({a[1]} {s} {b[1]})"
        if o in ("cmul", "cadd", "csub"):
            c, a = self.kscal(), u()
            s = {"cmul": "*", "cadd": "+", "csub": "-"}[o]
            return f"({c[0]} {s} {a[0]})", f"({c[1]} {s} {a[1]})"
        if o in ("mulc", "addc", "subc"):
            c, a = self.kscal(), u()
            s = {"mulc": "*", "addc": "+", "subc": "-"}[o]
            return f"({a[0]} {s} {c[0]})", f"({a[1]} {s} {c[1]})"
        if o == "divc":
            c, a = self.k(), u()
            return f"({a[0]} / (1.5 + {c} * {c}))", f"({a[1]} / S_(1.5 + {c} * {c}))"
        if o == "neg":
            a = u()
            return f"(-{a[0]})", f"(-{a[1]})"
        if o == "lib":
            a = u()
            f = rng.choice(["sin", "cos", "tan", "acos", "asin", "atan", "exp", "log", "sqrt",
                            "cbrt", "pow"])
            self.op(f)
            if f in ("sin", "cos", "atan"):
                return f"mf::{f}({a[0]})", f"jet::{f}({a[1]})"
            if f in ("tan", "exp", "asin", "acos"):
                return (f"mf::{f}(0.7 * mf::sin({a[0]}))", f"jet::{f}(0.7 * jet::sin({a[1]}))")
            if f in ("log", "sqrt", "cbrt"):
                return (f"mf::{f}(0.6 + mf::pow<2>({a[0]}))",
                        f"jet::{f}(0.6 + jet::pow<2>({a[1]}))")
            n = rng.choice([1, 2, 3, 4, 5, 6])
            return f"mf::pow<{n}>({a[0]})", f"jet::pow<{n}>({a[1]})"
        if o == "div":
            a, b = u(), self.S(dom, y, 0)
            return (f"({a[0]} / (1.25 + mf::pow<2>({b[0]})))", f"({a[1]} / (1.25 + jet::pow<2>({b[1]})))")
        if o == "cdiv":
            c, b = self.kscal(), u()
            return (f"({c[0]} / (1.25 + mf::pow<2>({b[0]})))", f"({c[1]} / (1.25 + jet::pow<2>({b[1]})))")
        if o == "sum":
            a = [u() for _ in range(rng.choice([1, 2, 3, 4]))]
            return (f"mf::summation({', '.join(x[0] for x in a)})",
                    "(" + " + ".join(x[1] for x in a) + ")")
        if o == "lincomb":
            a = [u() for _ in range(rng.choice([1, 2, 3, 4]))]
            c = [self.k() for _ in a]
            return (f"mf::linear_combination(std::array<double,{len(a)}>{{{{{', '.join(c)}}}}}, "
                    f"{', '.join(x[0] for x in a)})",
                    "(" + " + ".join(f"{p} * {x[1]}" for p, x in zip(c, a)) + ")")
        if o == "dot":
            n = rng.choice([2, 3])
            if rng.random() < 0.3:
                c, a = self.kvec(n), self.V(dom, y, n, d)
                if rng.random() < 0.5:
                    return f"({c[0]} * {a[0]})", f"jet::dot({c[1]}, {a[1]})"
                return f"({a[0]} * {c[0]})", f"jet::dot({a[1]}, {c[1]})"
            a, b = self.V(dom, y, n, d), self.V(dom, y, n, 0)
            return f"({a[0]} * {b[0]})", f"jet::dot({a[1]}, {b[1]})"
        if o == "at":
            if rng.random() < 0.6:
                n = rng.choice([2, 3])
                a, i = self.V(dom, y, n, d), rng.randrange(n)
                return f"({a[0]})[{i}]", f"({a[1]})({i},0)"
            r = rng.choice([2, 3])
            a, i, j = self.M(dom, y, r, r, d), rng.randrange(r), rng.randrange(r)
            return f"({a[0]})[{{ {i}, {j} }}]", f"({a[1]})({i},{j})"
        if o == "chain":
            inner = rng.choice(["V2", "V3", "M2"] if rng.random() < 0.4 else ["V2", "V3"])
            n = self.y()
            f = self.S(inner, n, min(d, 1))
            if inner == "M2":
                a = self.M(dom, y, 2, 2, min(d, 1), full=True)
            else:
                a = self.V(dom, y, int(inner[1]), min(d, 1))
            return (f"({f[0]})({a[0]})", f"([&](const auto & {n}) {{ return S_({f[1]}); }})({a[1]})")
        if o == "chain1":
            n = self.y()
            f, a = self.S("R", n, min(d, 1)), u()
            return (f"({f[0]})(mf::sin({a[0]}))",
                    f"([&](const auto & {n}) {{ return S_({f[1]}); }})(jet::sin({a[1]}))")
        if o == "det":
            r = rng.choice([2, 3])
            a = self.M(dom, y, r, r, d)
            return f"mf::determinant({a[0]})", f"jet::det({a[1]})"
        if o == "mat_at_const":
            a, b = self.kmat(2, 2), u()
            return f"({a[0]} * {b[0]})[{{ 1, 0 }}]", f"({b[1]} * {a[1]})(1,0)"
        if o == "functor":
            c, e = self.k(), self.k()
            i = rng.randrange(D)
            at = "x" if dom == "R" else f"x[{i}]"
            return (f"mf::function([k](const {X} & x) -> double {{ return {c} * {at} + {e} * {at} * {at}; }})",
                    f"({c} * {acc(y, i)} + {e} * {acc(y, i)} * {acc(y, i)})")
        raise AssertionError(o)

    # vector-valued functions ------------------------------------------------------------------
    def V(self, dom, y, n, depth, force=None):
        X, D, acc = DOMAINS[dom]
        rng = self.rng
        if depth <= 0:
            if force == "constant" or force is None and rng.random() < 0.3:
                self.op("vector constant")
                c = self.kvec(n)
                return f"mf::constant<{X}>({c[0]})", c[1]
            # a vector of scalar functions: sum of f_i e_i
            self.op("sum of f_i e_i")
            parts = [self.S(dom, y, 0 if rng.random() < 0.7 else 1) for _ in range(n)]
            terms, refs = [], []
            for i, p in enumerate(parts):
                e = f"mt::e_{i}<{n}>"
                terms.append(f"{p[0]} * {e}" if rng.random() < 0.5 else f"{e} * {p[0]}")
                refs.append(f"S_({p[1]})")
            return "(" + " + ".join(terms) + ")", f"jet::fill<D,{n},1>({{{{{', '.join(refs)}}}}})"
        d = depth - 1
        u = lambda: self.V(dom, y, n, d)
        ops = ["add", "sub", "addc", "cadd", "subc", "csub", "smul", "muls", "cmul", "mulc", "neg",
               "matvec", "matvec", "cmatvec", "divs", "divc", "chain", "kvs", "kvds", "sum", "lincomb"]
        if not self.diff:
            ops += ["functor"]
        if self.diff and dom in ("R", "C1"):
            ops = [p for p in ops if p != "chain"]
        o = force or rng.choice(ops)
        self.op("vector " + o)
        if o in ("add", "sub"):
            a, b = u(), u()
            s = "+" if o == "add" else "-"
            return f"({a[0]} {s} {b[0]})", f"({a[1]} {s} {b[1]})"
        if o in ("addc", "subc"):
            a, c = u(), self.kvec(n)
            s = "+" if o == "addc" else "-"
            return f"({a[0]} {s} {c[0]})", f"({a[1]} {s} {c[1]})"
        if o in ("cadd", "csub"):
            a, c = u(), self.kvec(n)
            s = "+" if o == "cadd" else "-"
            return f"({c[0]} {s} {a[0]})", f"({c[1]} {s} {a[1]})"
        if o in ("smul", "muls"):
            a, b = u(), self.S(dom, y, d)
            t = f"({b[0]} * {a[0]})" if o == "smul" else f"({a[0]} * {b[0]})"
            return t, f"(S_({b[1]}) * {a[1]})"
        if o in ("cmul", "mulc"):
            a, b = u(), self.kscal()
            t = f"({b[0]} * {a[0]})" if o == "cmul" else f"({a[0]} * {b[0]})"
            return t, f"({b[1]} * {a[1]})"
        if o == "neg":
            a = u()
            return f"(-{a[0]})", f"(S_(-1) * {a[1]})"
        if o == "matvec":
            m = rng.choice([2, 3])
            a, b = self.M(dom, y, n, m, d), self.V(dom, y, m, d)
            return f"({a[0]} * {b[0]})", f"jet::mul({a[1]}, {b[1]})"
        if o == "cmatvec":
            m = rng.choice([2, 3])
            a, b = self.kmat(n, m), self.V(dom, y, m, d)
            return f"({a[0]} * {b[0]})", f"jet::mul({a[1]}, {b[1]})"
        if o == "divs":
            a, b = u(), self.S(dom, y, 0)
            return (f"({a[0]} / (1.25 + mf::pow<2>({b[0]})))",
                    f"(S_(1 / (1.25 + jet::pow<2>(S_({b[1]})))) * {a[1]})")
        if o == "divc":
            a, c = u(), self.k()
            return f"({a[0]} / (1.5 + {c} * {c}))", f"(S_(1 / (1.5 + {c} * {c})) * {a[1]})"
        if o == "chain":
            inner = rng.choice(["V2", "V3"])
            q = self.y()
            f = self.V(inner, q, n, min(d, 1))
            a = self.V(dom, y, int(inner[1]), min(d, 1))
            return (f"({f[0]})({a[0]})",
                    f"([&](const auto & {q}) {{ return jet::Mat<D,{n},1>({f[1]}); }})({a[1]})")
        if o == "kvs":
            c, b = self.kvec(n), self.S(dom, y, d)
            t = f"({c[0]} * {b[0]})" if rng.random() < 0.5 else f"({b[0]} * {c[0]})"
            return t, f"(S_({b[1]}) * {c[1]})"
        if o == "kvds":
            c, b = self.kvec(n), self.S(dom, y, d)
            return (f"({c[0]} / (1.25 + mf::pow<2>({b[0]})))",
                    f"(S_(1 / (1.25 + jet::pow<2>(S_({b[1]})))) * {c[1]})")
        if o == "sum":
            a = [u() for _ in range(rng.choice([2, 3]))]
            return (f"mf::summation({', '.join(x[0] for x in a)})",
                    "(" + " + ".join(x[1] for x in a) + ")")
        if o == "lincomb":
            a = [u() for _ in range(rng.choice([1, 2, 3]))]
            c = [self.k() for _ in a]
            return (f"mf::linear_combination(std::array<double,{len(a)}>{{{{{', '.join(c)}}}}}, "
                    f"{', '.join(x[0] for x in a)})",
                    "(" + " + ".join(f"S_({p}) * {x[1]}" for p, x in zip(c, a)) + ")")
        if o == "functor":
            c = self.kvec(n)
            i = rng.randrange(D)
            at = "x" if dom == "R" else f"x[{i}]"
            return (f"mf::function([k](const {X} & x) {{ return mt::vector_t<{n}>({at} * {c[0]}); }})",
                    f"({acc(y, i)} * {c[1]})")
        raise AssertionError(o)

    # matrix-valued functions ------------------------------------------------------------------
    def M(self, dom, y, r, c, depth, full=False, force=None):
        """{full}: the library type must be an ordinary matrix"""
        X, D, acc = DOMAINS[dom]
        rng = self.rng
        if depth <= 0:
            if force == "identity" or force is None and r == c and not full and rng.random() < 0.2:
                self.op("identity")
                return f"mf::identity<{X},{r}>()", f"jet::eye<D,{r}>()"
            if force == "constant" or force is None and rng.random() < 0.3:
                self.op("matrix constant")
                m = self.kmat(r, c)
                return f"mf::constant<{X}>({m[0]})", m[1]
            self.op("scalar times constant matrix")
            m, s = self.kmat(r, c), self.S(dom, y, 1)
            q, t = self.kmat(r, c), self.S(dom, y, 0)
            return (f"({m[0]} * {s[0]} + {t[0]} * {q[0]})", f"(S_({s[1]}) * {m[1]} + S_({t[1]}) * {q[1]})")
        d = depth - 1
        u = lambda: self.M(dom, y, r, c, d, full)
        ops = ["add", "sub", "addc", "csub", "smul", "muls", "cmul", "matmul", "matmul", "transpose",
               "transpose", "cmat", "matc", "neg", "lincomb", "chain"]
        if self.diff and dom in ("R", "C1"):
            ops.remove("chain")
        if not self.diff:
            if r == c:
                ops += ["inverse", "inverse"]
                ops += ["dyadic", "dyadic"]
        o = force or rng.choice(ops)
        self.op("matrix " + o)
        if o in ("add", "sub"):
            a, b = u(), u()
            s = "+" if o == "add" else "-"
            return f"({a[0]} {s} {b[0]})", f"({a[1]} {s} {b[1]})"
        if o in ("addc", "csub"):
            a, b = self.M(dom, y, r, c, d, True), self.kmat(r, c)
            if o == "addc":
                return f"({a[0]} + {b[0]})", f"({a[1]} + {b[1]})"
            return f"({b[0]} - {a[0]})", f"({b[1]} - {a[1]})"
        if o in ("smul", "muls"):
            a, b = u(), self.S(dom, y, d)
            t = f"({b[0]} * {a[0]})" if o == "smul" else f"({a[0]} * {b[0]})"
            return t, f"(S_({b[1]}) * {a[1]})"
        if o == "cmul":
            a, b = u(), self.k()
            return f"({b} * {a[0]})", f"(S_({b}) * {a[1]})"
        if o == "neg":
            a = u()
            return f"(-{a[0]})", f"(S_(-1) * {a[1]})"
        if o == "matmul":
            m = rng.choice([2, 3])
            a, b = self.M(dom, y, r, m, d, True), self.M(dom, y, m, c, d, True)
            return f"({a[0]} * {b[0]})", f"jet::mul({a[1]}, {b[1]})"
        if o == "cmat":
            m = rng.choice([2, 3])
            a, b = self.kmat(r, m), self.M(dom, y, m, c, d, True)
            return f"({a[0]} * {b[0]})", f"jet::mul({a[1]}, {b[1]})"
        if o == "matc":
            m = rng.choice([2, 3])
            a, b = self.M(dom, y, r, m, d, True), self.kmat(m, c)
            return f"({a[0]} * {b[0]})", f"jet::mul({a[1]}, {b[1]})"
        if o == "chain":
            inner = rng.choice(["V2", "V3"])
            q = self.y()
            f = self.M(inner, q, r, c, min(d, 1), full)
            a = self.V(dom, y, int(inner[1]), min(d, 1))
            return (f"({f[0]})({a[0]})",
                    f"([&](const auto & {q}) {{ return jet::Mat<D,{r},{c}>({f[1]}); }})({a[1]})")
        if o == "transpose":
            a = self.M(dom, y, c, r, d, True)
            return f"mf::transpose({a[0]})", f"jet::transpose({a[1]})"
        if o == "lincomb":
            a = [self.M(dom, y, r, c, 0, True) for _ in range(2)]
            k = [self.k() for _ in a]
            return (f"mf::linear_combination(std::array<double,2>{{{{{', '.join(k)}}}}}, "
                    f"{', '.join(x[0] for x in a)})",
                    "(" + " + ".join(f"S_({p}) * {x[1]}" for p, x in zip(k, a)) + ")")
        if o == "inverse":
            a = self.M(dom, y, r, r, 0, True)
            s = self.S(dom, y, 0)
            # a matrix that is dominated by its diagonal
            e = ['0.3', '0.7', '-0.2', '0.5', '0.1', '-0.6', '0.4', '0.8', '-0.9'][:r * r]
            m = f"mat<{r},{r}>(" + ", ".join("4.0" if i == j else "0.0" for i in range(r) for j in range(r)) + ")"
            lib = f"({m} + mf::sin({s[0]}) * mat<{r},{r}>({', '.join(e)}))"
            ref = (f"(S_(4) * jet::eye<D,{r}>() + jet::sin({s[1]}) * jet::fill<D,{r},{r}>("
                   "{{" + ", ".join("S_(" + t + ")" for t in e) + "}}))")
            for _ in range(rng.choice([1, 1, 2])):
                lib, ref = f"mf::inverse({lib})", f"jet::inverse({ref})"
            return lib, ref
        if o == "dyadic":
            a, b = self.V(dom, y, r, d), self.V(dom, y, r, 0)
            return f"mf::dyadic({a[0]}, {b[0]})", f"jet::mul({a[1]}, jet::transpose({b[1]}))"
        raise AssertionError(o)


def catalog(diff):
    """every kind of function composed with others and subscripted"""
    S = ["constant", "component", "power", "add", "sub", "mul", "cmul", "mulc", "cadd", "addc", "csub", "subc",
         "divc", "neg", "lib", "div", "cdiv", "sum", "lincomb", "dot", "at", "chain", "chain1"]
    V = ["constant", "components", "add", "sub", "addc", "cadd", "subc", "csub", "smul", "muls", "cmul", "mulc",
         "neg", "matvec", "cmatvec", "divs", "divc", "chain", "kvs", "kvds", "sum", "lincomb"]
    M = ["identity", "constant", "scaled", "add", "sub", "addc", "csub", "smul", "muls", "cmul", "matmul",
         "transpose", "cmat", "matc", "neg", "lincomb", "chain"]
    if not diff:
        S += ["det", "functor"]
        V += ["functor"]
        M += ["inverse", "dyadic"]
    return ([("S", o, u) for o in S for u in ("chain",)] + [("V", o, u) for o in V for u in ("at", "index", "chain")]
            + [("M", o, u) for o in M for u in ("at", "flat", "chain")])


LEAVES = {"constant", "component", "power", "components", "identity", "scaled"}


def entry(sh, rng, kind, o, use):
    """an entry of the catalog: the kind and size of the result, and the expressions"""
    depth = 0 if o in LEAVES else 1
    dom = rng.choice(["V2", "V3"])
    outer = dom
    if use == "chain":
        outer = "R" if o == "power" or (kind == "S" and o != "component" and rng.random() < 0.4) else rng.choice(["V2", "V3"])
        if sh.diff and outer == "R" and o == "chain":
            outer = "V2"
    y = sh.y() if use == "chain" else "y"
    size = (1, 1)
    if kind == "S":
        f = sh.S(outer, y, depth, force=o)
    elif kind == "V":
        size = (rng.choice([2, 3]), 1)
        f = sh.V(outer, y, size[0], depth, force=o)
    else:
        size = rng.choice([(2, 2), (3, 3)]) if o in ("identity", "inverse", "dyadic") else rng.choice([(2, 2), (3, 3), (2, 3), (3, 2)])
        f = sh.M(outer, y, *size, depth, full=o != "identity", force=o)
    r, c = size
    i, j = rng.randrange(r), rng.randrange(c)
    if use == "chain":
        if outer == "R":
            a = sh.S(dom, "y", 1)
            a = (f"mf::sin({a[0]})", f"jet::sin({a[1]})")
        else:
            a = sh.V(dom, "y", int(outer[1]), 1)
        body = f"S_({f[1]})" if kind == "S" else f"jet::Mat<D,{r},{c}>({f[1]})"
        return dom, kind, r, c, (f"({f[0]})({a[0]})", f"([&](const auto & {y}) {{ return {body}; }})({a[1]})")
    if use == "at":
        t = f"({f[0]})[{i}]" if kind == "V" else f"({f[0]})[{{ {i}, {j} }}]"
    elif use == "index":
        t = f"({f[0]})[typename mt::vector_t<{r}>::index_t {{ {i} }}]"
    elif o == "identity":
        t = f"({f[0]})[{{ {i}, {j} }}]"
    else:
        t = f"({f[0]})[{i * c + j}]"
    return dom, "S", 1, 1, (t, f"jet::Mat<D,{r},{c}>({f[1]})({i},{j})")


def emit(i, rng, mode, item=None):
    diff = mode == "derivatives"
    while True:
        if item:
            sh = Shape(rng, diff)
            dom, kind, r, c, (f, ref) = entry(sh, rng, *item)
            depth = 2
            if len(f) <= (500 if diff else 1500) and sh.nk < 100:
                break
            continue
        dom = rng.choice(["R", "V2", "V3", "V3", "M2"])
        kind = rng.choice(["S", "S", "S", "V", "V", "M"])
        depth = rng.choice([1, 2, 2, 3] if diff else [1, 2, 3, 3])
        if dom == "M2":
            depth = min(depth, 2)
        sh = Shape(rng, diff)
        if kind == "S":
            f, ref = sh.S(dom, "y", depth)
            r = c = 1
        elif kind == "V":
            r, c = rng.choice([2, 3]), 1
            f, ref = sh.V(dom, "y", r, min(depth, 2))
        else:
            r, c = rng.choice([(2, 2), (3, 3), (2, 3)])
            f, ref = sh.M(dom, "y", r, c, min(depth, 2), full=True)
        if len(f) <= (700 if diff else 1500) and sh.nk < 100:
            break
    X, D, _ = DOMAINS[dom]
    out = [f"// {', '.join(sorted(sh.ops))}",
           f"static void shape_{i}(Run & run)", "{",
           f"    constexpr int D = {D}; using J = jet::Jet<D>; [[maybe_unused]] auto S_ = [](const auto & v) {{ return J(v); }}; [[maybe_unused]] auto & k = run.k;",
           f"    auto x = run.point<{X}>(); auto y = reference(x);",
           f"    auto f = {f};", f"    auto r = {ref};"]
    if kind == "S":
        out.append("    auto ref = jet::fill<D,1,1>({{S_(r)}});")
    else:
        out.append(f"    jet::Mat<D,{r},{c}> ref = r;")
    k = {"S": 0, "V": 1, "M": 2}[kind]
    out.append(f"    run.begin({i}, {sh.nk});")
    out.append(f"    run.value<{k}>(f(x), ref);")
    if diff:
        second = depth <= 2 and len(f) < 250
        for v in range(D):
            out.append(f"    {{ auto d = mf::derivative<{v}>(f); run.first<{k},{v}>(d(x), ref);")
            if second:
                w = rng.randrange(D)
                out.append(f"      auto dd = mf::derivative<{w}>(d); run.second<{k},{v},{w}>(dd(x), ref);")
            out.append("    }")
        if dom == "R" and kind == "S":
            out.append("    run.first<0,0>(mf::derivative(f)(x), ref);")
        elif item and item[1] == "identity" and kind == "M":
            pass    # (the rows of the matrix of derivatives are the stored components)
        elif len(f) < 350 and (kind != "M" or len(f) < 150):
            out.append(f"    run.jacobian<{k}>(mf::derivative(f)(x), ref);")
    out.append("    run.end();")
    out.append("}")
    return "\n".join(out), sh.nk


def emit_field(i, rng):
    """gradients and divergences of a field, and second-order operators made of them"""
    while True:
        dom = rng.choice(["C1", "C2", "C2", "C3", "C3"])
        X, D, _ = DOMAINS[dom]
        kind = rng.choice(["S", "V", "V", "N", "M"])
        depth = rng.choice([0, 1, 1, 2])
        sh = Shape(rng, True)
        c = 1
        if kind == "S":
            r, t = 1, sh.S(dom, "y", depth + 1)
        elif kind in "VN":
            r = rng.choice([2, 3]) if D == 1 else D if kind == "V" else 5 - D
            t = sh.V(dom, "y", r, depth)
        else:
            if D == 1:
                continue
            r = c = D
            t = sh.M(dom, "y", r, c, min(depth, 1), full=True)
        f, ref = t
        if len(f) <= (450 if kind != "M" else 300) and sh.nk < 100:
            break
    out = [f"// {kind} {', '.join(sorted(sh.ops))}",
           f"static void shape_{i}(Run & run)", "{",
           f"    constexpr int D = {D}; using J = jet::Jet<D>; [[maybe_unused]] auto S_ = [](const auto & v) {{ return J(v); }}; [[maybe_unused]] auto & k = run.k;",
           f"    auto x = run.point<{X}>(); auto y = reference(x);",
           f"    auto f = {f};", f"    auto r = {ref};"]
    if kind == "S":
        out.append("    auto ref = jet::fill<D,1,1>({{S_(r)}});")
    else:
        out.append(f"    jet::Mat<D,{r},{c}> ref = r;")
    k = {"S": 0, "V": 1, "N": 1, "M": 2}[kind]
    out.append(f"    run.begin({i}, {sh.nk});")
    out.append(f"    run.value<{k}>(f(x), ref);")
    small = len(f) < 160
    if kind == "S":
        if True:
            out.append("    auto grad = fields::gradient(f); run.gradient(grad(x), ref);")
            if small:
                out.append("    run.laplacian<0>(fields::divergence(grad)(x), ref);")
                if D > 1 and len(f) < 80:
                    out.append("    run.hessian(fields::gradient(grad)(x), ref);")
    elif kind in "VN":
        if D > 1:
            out.append("    auto grad = fields::gradient(f); run.jacobian<1>(grad(x), ref);")
        if r == D:
            out.append("    auto div = fields::divergence(f); run.divergence(div(x), ref);")
            if len(f) < 80:
                out.append("    run.grad_div(fields::gradient(div)(x), ref);")
                out.append("    run.laplacian<1>(fields::divergence(grad)(x), ref);")
    else:
        out.append("    run.row_divergence(fields::divergence(f)(x), ref);")
    out += ["    run.end();", "}"]
    return "\n".join(out), sh.nk


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--mode", default="values")
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--batch", type=int, default=0)
    ap.add_argument("--of", type=int, default=8, help="number of batches over which the catalog is spread")
    ap.add_argument("--shapes", type=int, default=60)
    ap.add_argument("--out", required=True)
    ap.add_argument("--skip", default="", help="numbers of the shapes to leave out")
    a = ap.parse_args()
    skip = {int(x) for x in a.skip.split(",") if x}
    rng = random.Random(f"{a.mode}/{a.seed}/{a.batch}")
    text = ["// generated by gen_functions.py"]
    for i in range(a.shapes):
        t, _ = emit_field(i, rng) if a.mode == "fields" else emit(i, rng, a.mode)
        if i not in skip:
            text.append(t)
    n = a.shapes
    if a.mode != "fields":
        # a part of the catalog
        for item in catalog(a.mode == "derivatives")[a.batch % a.of::a.of]:
            t, _ = emit(n, rng, a.mode, item)
            if n not in skip:
                text.append(t)
            n += 1
    text.append("static void (*const SHAPES[])(Run &) = { "
                + ", ".join(f"shape_{i}" for i in range(n) if i not in skip) + " };")
    open(a.out, "w").write("\n".join(text) + "\n")


if __name__ == "__main__":
    main()
