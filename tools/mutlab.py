"""Systematic small changes of the package (one token or statement each), to find what the checks do not notice.

usage: mutlab.py list FILE...            the changes
       mutlab.py screen OUT FILE...      those that pass the repository's tests -> OUT (ndjson)
       mutlab.py hunt OUT RESULT [N]     run the checks that belong to the function on each survivor, until one notices
Works on scratch copies of /repo only.
"""
import ast
import concurrent.futures
import copy
import json
import os
import pathlib
import random
import shutil
import subprocess
import sys

V = pathlib.Path(os.environ.get("MUT_VERIF") or pathlib.Path(__file__).resolve().parents[1])
REPO = pathlib.Path("/repo")
LAB = pathlib.Path("/tmp/mutlab")
CHECKS = {"pyspectral/rayleigh.py": ["C12", "C02", "C07"], "pyspectral/atm_correction_ir.py": ["C13"], "pyspectral/blackbody.py": ["C09", "C10"],
          "pyspectral/radiance_tb_conversion.py": ["C10", "C04"], "pyspectral/near_infrared_reflectance.py": ["C11", "C04"],
          "pyspectral/solar.py": ["C14"], "pyspectral/config.py": ["C15"], "pyspectral/testing.py": ["C16"],
          "pyspectral/raw_reader.py": ["C05", "C20"], "pyspectral/rsr_reader.py": ["C05", "C06", "C07", "C08", "C01", "C14"],
          "pyspectral/utils.py": ["C18", "C06", "C07", "C08", "C05", "C17", "C01", "C02", "C03", "C19", "C20", "C10"]}
BY_FUNCTION = {"download": ["C01", "C02", "C03", "C19"], "tarball": ["C03", "C19", "C01"], "logging": ["C17"], "logger": ["C17"], "hdf5": ["C05", "C20"],
               "wave_range": ["C18", "C21"], "central_wave": ["C18", "C05"], "sort": ["C18"], "bandname": ["C06"], "instrument": ["C07", "C05"],
               "wavenumber": ["C08"], "str": ["C05", "C18"], "fullwidth": ["C18"], "atm": ["C02", "C12"], "marker": ["C03", "C01", "C02"], "fetch": ["C03", "C19"]}


def checks_for(path, fn):
    if path.endswith("utils.py"):
        for k, v in BY_FUNCTION.items():
            if k in fn.lower():
                return v + [c for c in CHECKS[path] if c not in v]
    return CHECKS.get(path, [])


CMP = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.In: ast.NotIn, ast.NotIn: ast.In,
       ast.Is: ast.IsNot, ast.IsNot: ast.Is}
BIN = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult, ast.Pow: ast.Mult}


def mutants(path):
    src = (REPO / path).read_text()
    tree = ast.parse(src)
    parents, fn = {}, {}
    for n in ast.walk(tree):
        for ch in ast.iter_child_nodes(n):
            parents[ch] = n

    def where(n):
        names = []
        while n in parents:
            n = parents[n]
            if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                names.append(n.name)
        return ".".join(reversed(names))

    def text(n):
        return ast.get_source_segment(src, n)

    def in_log(n):
        while n in parents:
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and (text(n.func) or "").split(".")[0] in ("LOG", "warnings", "logging"):
                return True
            if isinstance(n, (ast.Raise,)):
                return True
            n = parents[n]
        return False

    out = []

    def put(n, new, kind):
        if hasattr(n, "lineno") and text(n) != new:
            out.append({"file": path, "fn": where(n), "line": n.lineno, "pos": [n.lineno, n.col_offset, n.end_lineno, n.end_col_offset], "new": new,
                        "old": text(n), "kind": kind})

    for n in ast.walk(tree):
        if in_log(n) or "__main__" in where(n) or not where(n) and not isinstance(n, ast.Constant):
            continue
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            m = copy.deepcopy(n)
            m.ops = [CMP[type(n.ops[0])]()]
            put(n, "(" + ast.unparse(m) + ")", "compare")
        elif isinstance(n, ast.BinOp) and type(n.op) in BIN and not isinstance(n.left, ast.Constant) or isinstance(n, ast.BinOp) and type(n.op) in BIN and not isinstance(n.left.value if isinstance(n.left, ast.Constant) else 0, str):
            m = copy.deepcopy(n)
            m.op = BIN[type(n.op)]()
            put(n, "(" + ast.unparse(m) + ")", "arith")
        elif isinstance(n, ast.BoolOp):
            m = copy.deepcopy(n)
            m.op = ast.And() if isinstance(n.op, ast.Or) else ast.Or()
            put(n, "(" + ast.unparse(m) + ")", "bool")
            for i in range(len(n.values)):
                m = copy.deepcopy(n)
                del m.values[i]
                put(n, "(" + ast.unparse(m if len(m.values) > 1 else m.values[0]) + ")", "dropterm")
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Not, ast.USub, ast.Invert)):
            put(n, "(" + ast.unparse(n.operand) + ")", "unary")
        elif isinstance(n, ast.Constant) and not isinstance(parents.get(n), (ast.Expr, ast.JoinedStr, ast.FormattedValue)):
            if n.value is True or n.value is False:
                put(n, str(not n.value), "const")
            elif isinstance(n.value, (int, float)) and where(n):
                put(n, repr(n.value + 1), "const")
                if isinstance(n.value, float) and n.value:
                    put(n, repr(n.value * 1.02), "const")
            elif isinstance(n.value, str) and where(n) and n.value and isinstance(parents.get(n), (ast.Subscript, ast.Compare, ast.Return)):
                put(n, repr(n.value + "_"), "const")
        elif isinstance(n, (ast.If, ast.While, ast.IfExp)):
            put(n.test, "(not (" + text(n.test) + "))", "cond")
        elif isinstance(n, ast.Expr) and isinstance(n.value, ast.Call):
            put(n, "pass", "drop")
        elif isinstance(n, ast.Assign) and isinstance(n.targets[0], (ast.Attribute, ast.Subscript)):
            put(n, "pass", "drop")
        elif isinstance(n, ast.AugAssign):
            put(n, "pass", "drop")
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and len(n.args) == 0 and n.func.attr in ("copy", "strip", "lower", "upper", "compressed", "ravel"):
            put(n, text(n.func.value), "unwrap")
        elif isinstance(n, ast.Call) and n.keywords:
            for i, k in enumerate(n.keywords):
                if k.arg:
                    m = copy.deepcopy(n)
                    del m.keywords[i]
                    put(n, ast.unparse(m), "dropkw")
        elif isinstance(n, ast.Return) and n.value is not None and not isinstance(n.value, ast.Constant):
            put(n, "return None", "return")
    return out


def apply(root, m):
    p = root / m["file"]
    lines = (REPO / m["file"]).read_text().encode().splitlines(keepends=True)
    a, b, c, d = m["pos"]
    head, tail = lines[a - 1][:b], lines[c - 1][d:]
    lines[a - 1:c] = [head + m["new"].encode() + tail]
    data = b"".join(lines)
    try:
        compile(data, "x", "exec")
    except SyntaxError:
        return False
    p.write_bytes(data)
    return True


def tree(i):
    d = LAB / f"t{i}"
    if not d.exists():
        d.mkdir(parents=True)
        subprocess.run(["cp", "-a", "/repo", str(d / "repo")], check=True)
    return d / "repo"


def tests_pass(repo):
    sh = open("/opt/vp/test.sh").read().replace("cd /repo", f"cd {repo}")
    out = repo.parent / "t.json"
    out.unlink(missing_ok=True)
    env = {**os.environ, "PYTHONPATH": "", "HOME": str(repo.parent), "TMPDIR": str(repo.parent)}
    try:
        subprocess.run(["bash", "-c", sh, "x", str(out)], capture_output=True, env=env, timeout=90)
        got = set(json.load(open(out)).get("passed", []))
    except (subprocess.TimeoutExpired, OSError, ValueError):
        return False
    return all(t in got for t in json.load(open("/opt/vp/BASELINE.json"))["stable"])


def screen(out, files):
    todo = [m for f in files for m in mutants(f)]
    print(len(todo), "changes")
    import queue
    free = queue.Queue()
    workers = int(os.environ.get("MUT_WORKERS", "4"))
    for i in range(workers):
        tree(i)
        free.put(i)

    def one(m):
        i = free.get()
        try:
            r = tree(i)
            if not apply(r, m):
                return None
            ok = tests_pass(r)
            shutil.copy(REPO / m["file"], r / m["file"])
            return m if ok else None
        finally:
            free.put(i)

    n = 0
    with open(out, "a") as f, concurrent.futures.ThreadPoolExecutor(workers) as ex:
        for m in ex.map(one, todo):
            if m:
                n += 1
                f.write(json.dumps(m) + "\n")
                f.flush()
    print(n, "survive the tests")


def hunt(src, res, limit):
    ms = [m for m in map(json.loads, open(src)) if not m["old"].startswith("LOG") and m["fn"] != "SolarIrradianceSpectrum.plot"]
    random.Random(5).shuffle(ms)
    done = {json.dumps([x["file"], x["pos"], x["new"]]) for x in map(json.loads, open(res))} if os.path.exists(res) else set()
    r = tree("h" + os.environ.get("MUT_TREE", ""))
    most = int(os.environ.get("MUT_CHECKS", "99"))
    with open(res, "a") as f:
        for m in ms[:limit]:
            if json.dumps([m["file"], m["pos"], m["new"]]) in done:
                continue
            apply(r, m)
            found = None
            for c in checks_for(m["file"], m["fn"])[:most]:
                try:
                    p = subprocess.run([sys.executable, "check.py", c, "--tier", "quick", "--seed", "1"], cwd=V, capture_output=True, text=True, timeout=900,
                                       env={**os.environ, "VERIF_REPO": str(r), "VERIF_NOEVIDENCE": "1"})
                    if p.returncode:
                        found = f"{c} rc={p.returncode}"
                        break
                except subprocess.TimeoutExpired:
                    found = f"{c} timeout"
                    break
            shutil.copy(REPO / m["file"], r / m["file"])
            m["found"] = found
            f.write(json.dumps(m) + "\n")
            f.flush()
            print(found or "SURVIVES", m["file"], m["line"], m["fn"], "|", m["old"][:80].replace("\n", " "), "->", m["new"][:80].replace("\n", " "), flush=True)


if __name__ == "__main__":
    if sys.argv[1] == "list":
        for f in sys.argv[2:]:
            for m in mutants(f):
                print(m["kind"], m["line"], m["fn"], "|", m["old"][:60], "->", m["new"][:60])
    elif sys.argv[1] == "screen":
        screen(sys.argv[2], sys.argv[3:])
    else:
        hunt(sys.argv[2], sys.argv[3], int(sys.argv[4]) if len(sys.argv) > 4 else None)
