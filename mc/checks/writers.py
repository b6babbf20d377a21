"""P21: input files for the external overtopping tools.  Every explored history of writes runs in a scratch directory; every file is
parsed back and compared with the model (one line per case, every quantity in its place)."""
import itertools
import os
import pathlib
import shutil
import tempfile

import numpy as np

from .. import engine
from ..run import Result
from .base import Spec

NAMES = "beta h Hm0 Tmm10 Bt ht B_berm db Rc Ac Gc cot_alpha_down cot_alpha_up".split()
XGB = dict(mod="hydraulic.wave_overtopping.denbieman2021", fn="write_input_file_XGB_Overtopping", ext=".csv",
           default="input_XGB_Overtopping", args=NAMES + ["gamma_f_down", "gamma_f_up", "tan_alpha_f"],
           # documented columns of the tool
           cols=[("b", "beta"), ("h", "h"), ("Hm0 toe", "Hm0"), ("Tm-1,0 toe", "Tmm10"), ("ht", "ht"), ("Bt", "Bt"), ("hb", "db"),
                 ("B", "B_berm"), ("Rc", "Rc"), ("Ac", "Ac"), ("Gc", "Gc"), ("cotad", "cot_alpha_down"), ("cotau", "cot_alpha_up"),
                 ("gf_d", "gamma_f_down"), ("gf_u", "gamma_f_up"), ("tanaf", "tan_alpha_f")])
NN = dict(mod="hydraulic.wave_overtopping.vangent2007", fn="write_input_file_NN_Overtopping", ext=".inp", default="input_NN_Overtopping",
          args=NAMES + ["gamma_f", "tan_alpha_B"],
          cols=[(None, n) for n in "beta h Hm0 Tmm10 ht Bt gamma_f cot_alpha_down cot_alpha_up Rc B_berm db tan_alpha_B Ac Gc".split()])
TOOLS = {"xgb": XGB, "nn": NN}


def cell(i, j, kind):
    """a value that identifies its quantity i and its case j"""
    if kind == "int":
        return 10 * (i + 1) + 1000 * j
    if kind == "neg":
        return -(0.37 * (i + 1) + 17 * j)
    if kind == "small":
        return (i + 1) * 1e-7 + j * 1.1e-4
    if kind == "big":
        return (i + 1) * 12345.678901234567 + j * 1e7
    if kind == "zero":
        return 0.0 if (i + j) % 3 else 0.125 * (i + 1) + j
    if kind == "same":
        return 0.5 * (i + 1)
    if kind == "pairs":                  # every case occurs twice, not next to each other
        return 0.5 * (i + 1) + 3.0 * (j % 2)
    if kind == "down":                   # falling from case to case
        return 0.5 * (i + 1) - 3.0 * j
    if kind == "third":
        return (i + 1) / 3.0 + j * 0.1
    return 0.25 * (i + 1) + 7.0 * j


def make(tool, n, arrays, kind, form="array", scalar="float"):
    """arguments and the table of values the file must hold"""
    args, table = {}, {}
    for i, a in enumerate(tool["args"]):
        if a in arrays:
            vals = [cell(i, j, kind) for j in range(n)]
            if form == "list":
                args[a] = list(vals)
            else:
                args[a] = np.array(vals, dtype=np.int64 if kind == "int" else float)
            table[a] = vals
        else:
            v = cell(i, 0, kind)
            if scalar == "np":
                v = np.float64(v)
            elif scalar == "int":
                v = i + 1
            args[a] = v
            table[a] = [float(v)] * (n if arrays else 1)
    return args, table


def parse(tool, text):
    """rows of the file: list of lists in the order of tool['cols']"""
    lines = text.splitlines()
    if tool["ext"] == ".csv":
        head = lines[0].split(";")
        want = [c for c, _ in tool["cols"]]
        if head[1:] != want:
            raise ValueError("header is %r" % (head,))
        rows = []
        for k, ln in enumerate(lines[1:]):
            p = ln.split(";")
            if int(p[0]) != k:
                raise ValueError("case %d is numbered %s" % (k, p[0]))
            rows.append([float(x) for x in p[1:]])
        return rows
    rows, seen = [], False
    for ln in lines:
        if ln[:1] in "!*":
            if seen:
                raise ValueError("comment line after the first case")
            continue
        seen = True
        rows.append([float(x) for x in ln.split()])
    return rows


def judge(tool, path, table):
    if not os.path.exists(path):
        return "no file %s was written" % os.path.basename(path)
    text = open(path).read()
    try:
        rows = parse(tool, text)
    except (ValueError, IndexError) as e:
        return "unreadable file: %s" % e
    n = len(table[tool["args"][0]])
    if len(rows) != n:
        return "%d cases in the file instead of %d" % (len(rows), n)
    if tool["ext"] == ".inp" and not text.startswith("!"):
        return "the file does not start with its heading"
    for j, row in enumerate(rows):
        if len(row) != len(tool["cols"]):
            return "case %d has %d quantities instead of %d" % (j, len(row), len(tool["cols"]))
        for (c, a), x in zip(tool["cols"], row):
            y = table[a][j]
            if abs(x - y) > 1e-9 * max(abs(y), 1e-12):
                return "case %d: %s is %r instead of %r" % (j, a, x, y)
    return None


def subsets(names, t):
    """which inputs are arrays: none, all, all but up to two, one, two (three in the thorough tier)"""
    n = len(names)
    for k in list(range(0, (4 if t else 3))) + [n - 2, n - 1, n]:
        for c in itertools.combinations(names, k):
            yield frozenset(c)


class Writers(Spec):
    assumptions = ["files are compared number by number (relative 1e-9), the heading of the NN file only by its comment marks",
                   "arrays of different lengths must be refused; a single-element array next to longer ones is not judged"]

    def one(self, r, key, args, table, base, name=None, conv=str, sig="file"):
        tool = TOOLS[key]
        try:
            f = engine.impl(tool["mod"], tool["fn"])
        except (engine.Missing, ImportError) as e:
            r.violation("missing:" + key, {}, "writer not available: %r" % e)
            return None
        copies = {k: (v.copy() if isinstance(v, np.ndarray) else v) for k, v in args.items()}
        kw = dict(args, output_dir=conv(base))
        if name is not None:
            kw["file_name"] = name
        kind, got = engine.guarded(f, kw)
        r.validated += 1
        for k, v in copies.items():
            if isinstance(v, np.ndarray) and not np.array_equal(v, args[k]):
                r.violation("mod:" + key, {k: v}, "the writer changed %s" % k)
        if kind == "exc":
            return "raised %s: %s" % (type(got).__name__, got)
        return judge(tool, os.path.join(base, (name or tool["default"]) + tool["ext"]), table)

    # -- single writes
    def single(self, key, combos, lens, kinds, name):
        r = Result(name)
        tool = TOOLS[key]
        base = tempfile.mkdtemp(prefix="vwr_")
        try:
            for arrays in combos:
                for n in (lens if arrays else [1]):
                    for kind, form, scalar in kinds:
                        args, table = make(tool, n, arrays, kind, form, scalar)
                        r.states += 1
                        r.transitions += len(arrays)
                        d = self.one(r, key, args, table, base)
                        if d:
                            r.violation("file:" + key, dict(arrays=sorted(arrays), n=n, kind=kind, form=form, scalar=scalar),
                                        "%s with %d cases, arrays %s: %s" % (key, n, sorted(arrays), d))
                            if r.full():
                                return r
            r.samples.append({"writer": key, "arrays": sorted(combos[0]), "lengths": lens})
        finally:
            shutil.rmtree(base, ignore_errors=True)
        return r

    # -- histories of writes
    def histories(self, depth):
        r = Result("histories")
        ops = []
        for key in TOOLS:
            tool = TOOLS[key]
            for name in (None, "a", "run.1 b"):
                for n, arrays in ((1, ()), (3, tool["args"]), (2, tool["args"][:5])):
                    ops.append((key, name, n, frozenset(arrays)))
        ops = ops if depth > 2 else ops
        prepared = [make(TOOLS[k], n, arrays, "plain" if i % 2 else "third") for i, (k, _, n, arrays) in enumerate(ops)]
        seqs = list(itertools.product(range(len(ops)), repeat=2))
        if depth > 2:
            seqs += list(itertools.product(range(0, len(ops), 2), repeat=3))
        for seq in seqs:
            base = tempfile.mkdtemp(prefix="vwr_")
            try:
                want = {}
                for i in seq:
                    k, name, n, arrays = ops[i]
                    args, table = prepared[i]
                    r.transitions += 1
                    d = self.one(r, k, args, table, base, name)
                    if d:
                        r.violation("hist:" + k, dict(seq=[list(map(str, ops[x])) for x in seq]), "after %d writes: %s" % (len(want), d))
                        break
                    want[(name or TOOLS[k]["default"]) + TOOLS[k]["ext"]] = (k, table)
                r.states += 1
                for fn, (k, table) in want.items():       # nothing disturbed, nothing else written
                    d = judge(TOOLS[k], os.path.join(base, fn), table)
                    if d:
                        r.violation("hist:" + k, dict(seq=[list(map(str, ops[x])) for x in seq]), "%s afterwards: %s" % (fn, d))
                extra = sorted(set(os.listdir(base)) - set(want))
                if extra:
                    r.violation("extra", dict(seq=[list(map(str, ops[x])) for x in seq]), "further files %r" % extra)
            finally:
                shutil.rmtree(base, ignore_errors=True)
            if r.full():
                break
        return r

    # -- refusals and directories
    def refusals(self):
        r = Result("refusals")
        base = tempfile.mkdtemp(prefix="vwr_")
        cwd = os.getcwd()
        try:
            for key, tool in TOOLS.items():
                f = engine.impl(tool["mod"], tool["fn"])
                for a, b in itertools.combinations(tool["args"], 2):
                    for la, lb in ((2, 3), (3, 2), (4, 2)):
                        args, _ = make(tool, 2, (), "plain")
                        args[a], args[b] = np.arange(1.0, la + 1), np.arange(1.0, lb + 1)
                        r.states += 1
                        r.validated += 1
                        kind, got = engine.guarded(f, dict(args, output_dir=base))
                        if kind == "ok":
                            r.violation("len:" + key, {a: la, b: lb}, "%s: %s has %d cases and %s %d, and a file was written" % (key, a, la, b, lb))
                        else:
                            r.refused += 1
                for a in tool["args"]:
                    args, _ = make(tool, 2, tool["args"], "plain")
                    args.pop(a)
                    r.states += 1
                    r.validated += 1
                    kind, got = engine.guarded(f, dict(args, output_dir=base))
                    if kind == "ok":
                        r.violation("need:" + key, {a: None}, "%s: written without %s" % (key, a))
                    else:
                        r.refused += 1
                args, table = make(tool, 3, tool["args"], "third")
                os.makedirs(os.path.join(base, "d 1", "e"), exist_ok=True)
                for sub in ("", "d 1", os.path.join("d 1", "e")):
                    for conv in (str, pathlib.Path, lambda x: str(x) + os.sep):
                        r.states += 1
                        d = self.one(r, key, args, table, os.path.join(base, sub), "f", conv)
                        if d:
                            r.violation("dir:" + key, dict(dir=sub), "%s in %r: %s" % (key, sub, d))
                os.chdir(base)
                d = self.one(r, key, args, table, "d 1", "rel")
                os.chdir(cwd)
                if d:
                    r.violation("dir:" + key, dict(dir="relative"), d)
                kind, got = engine.guarded(f, dict(args, output_dir=os.path.join(base, "none")))
                r.states += 2
                if kind == "ok" and not os.path.exists(os.path.join(base, "none", tool["default"] + tool["ext"])):
                    r.violation("dir:" + key, dict(dir="none"), "%s: nothing was written into a missing directory, silently" % key)
                # by position, in the documented order
                args, table = make(tool, 3, tool["args"], "plain")
                kind, got = engine.guarded(lambda **k: f(*[args[a] for a in tool["args"]], base, "pos"), {})
                r.states += 1
                d = repr(got) if kind == "exc" else judge(tool, os.path.join(base, "pos" + tool["ext"]), table)
                if d:
                    r.violation("pos:" + key, {}, "%s by position: %s" % (key, d))
        finally:
            os.chdir(cwd)
            shutil.rmtree(base, ignore_errors=True)
        return r

    def jobs(self, tier):
        t = tier == "thorough"
        out = []
        lens = [1, 2, 3, 7, 200] if t else [1, 3]
        kinds = [("plain", "array", "float"), ("int", "array", "int"), ("third", "array", "np"), ("same", "array", "float"),
                 ("down", "array", "float")]
        if t:
            kinds += [(k, "array", "float") for k in ("neg", "small", "big", "zero")] + [("plain", "list", "float")]
        for key, tool in TOOLS.items():
            engine.load(tool["mod"])
            combos = list(dict.fromkeys(subsets(tool["args"], t)))
            step = max(1, len(combos) // 24)
            for i in range(0, len(combos), step):
                out.append(lambda key=key, c=combos[i:i + step]: self.single(key, c, lens, kinds, key))
            special = [frozenset(), frozenset(tool["args"]), frozenset(tool["args"][::2])]
            more = [(k, fm, s) for k in ("plain", "neg", "small", "big", "zero", "int", "third", "same", "pairs", "down") for fm in ("array", "list")
                    for s in ("float", "np", "int")]
            out.append(lambda key=key, c=special, m=more: self.single(key, c, [1, 2, 5, 10, 11, 50, 199, 200, 201, 400], m, key + "/forms"))
        out.append(lambda: self.histories(3 if t else 2))
        out.append(self.refusals)
        return out

    def bounds(self, tier):
        return {"inputs given as arrays": "none, every single one, every two%s, all, all but one, all but two" %
                (", every three" if tier == "thorough" else ""), "cases": "1 to 400",
                "histories": "all sequences of %d writes over 18 operations (2 writers, 3 names, 3 sizes)%s" %
                (2, ", and of 3 writes over 9" if tier == "thorough" else "")}

    def replay(self, v):
        s = v["state"]
        if "arrays" in s:
            key = v["case"].split("/")[0]
            return self.single(key, [frozenset(s["arrays"])], [s["n"]], [(s["kind"], s["form"], s["scalar"])], key).viols or None
        r = self.histories(2) if v["case"] == "histories" else self.refusals()
        return r.viols or None
