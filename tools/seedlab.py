"""Makes the planted bugs of /verif/seeded from the definitions in tools/seeds/*.txt and confirms each in a scratch copy.

A definition file:  first line: file in the repository; sections '== property', '== needs', '== breaks', '== demo',
and pairs '<<<<' old '====' new '>>>>' (may be preceded by a line 'file: <path>').
usage: seedlab.py make ID...   (creates and confirms)       seedlab.py run ID [CHECK...]   (runs checks against it)
"""
import concurrent.futures
import json
import os
import pathlib
import re
import shutil
import subprocess
import sys
import tempfile

V = pathlib.Path(__file__).resolve().parents[1]
DEFS = V / "tools" / "seeds"
BASE = "69de6bd"
DEMO = """#!/bin/bash
# exits 0 when the behaviour is right, nonzero otherwise; run in the root of the repository
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
work=$(mktemp -d)
trap 'rm -rf "$work"' EXIT
export HOME="$work" TMPDIR="$work" PYTHONPATH="$repo:$here" PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg
unset PSP_CONFIG_FILE XDG_DATA_HOME
mkdir "$work/w" && cd "$work/w" && timeout 250 /opt/venv/bin/python "$here/demo.py"
"""


def parse(f):
    text = f.read_text()
    sec = dict(re.findall(r"^== (\w+)\n(.*?)(?=^== |\Z)", text, re.S | re.M))
    edits = []
    cur = None
    for m in re.finditer(r"^file: (\S+)$|^<<<<\n(.*?)^====\n(.*?)^>>>>$", sec["edit"], re.S | re.M):
        if m.group(1):
            cur = m.group(1)
        else:
            edits.append((cur, m.group(2)[:-1], m.group(3)[:-1]))
    return {k: v.strip() for k, v in sec.items() if k != "edit"}, edits


def copy():
    d = pathlib.Path(tempfile.mkdtemp(prefix="seed_", dir="/tmp"))
    subprocess.run(["cp", "-a", "/repo", str(d / "repo")], check=True)
    return d


def tests(repo):
    """All stable tests pass in that copy?"""
    sh = open("/opt/vp/test.sh").read().replace("cd /repo", f"cd {repo}")
    out = repo.parent / "t.json"
    subprocess.run(["bash", "-c", sh, "x", str(out)], capture_output=True, env={**os.environ, "PYTHONPATH": ""})
    base = json.load(open("/opt/vp/BASELINE.json"))["stable"]
    got = set(json.load(open(out)).get("passed", []))
    return [t for t in base if t not in got]


def demo(folder, repo):
    d = pathlib.Path(tempfile.mkdtemp(prefix="seeddemo_", dir="/tmp"))
    for f in folder.iterdir():
        if f.suffix not in (".diff", ".json"):
            shutil.copy(f, d / f.name)
    r = subprocess.run(["bash", str(d / "demo.sh")], cwd=repo, capture_output=True, text=True)
    shutil.rmtree(d)
    return r.returncode, (r.stdout + r.stderr)[-600:]


def make(i):
    sec, edits = parse(DEFS / f"{i}.txt")
    d = copy()
    try:
        repo = d / "repo"
        for f, old, new in edits:
            p = repo / f
            s = p.read_text()
            if s.count(old) != 1:
                return i, f"ERROR: {f}: text found {s.count(old)} times"
            p.write_text(s.replace(old, new))
        diff = subprocess.run(["git", "diff"], cwd=repo, capture_output=True, text=True).stdout
        added = set()
        for f, old, new in edits:
            blame = subprocess.run(["git", "blame", "-s", "--abbrev=7", f], cwd="/repo", capture_output=True, text=True).stdout
            lines = [(b.lstrip("^").split()[0][:7], b.split(") ", 1)[1] if ") " in b else "") for b in blame.splitlines()]
            for n in [x for x in diff.splitlines() if x.startswith("-") and not x.startswith("---")]:
                owners = {c for c, t in lines if t == n[1:]}
                if owners and BASE not in owners:
                    added.add(n)
        bad = tests(repo)
        folder = V / "seeded" / i
        shutil.rmtree(folder, ignore_errors=True)
        folder.mkdir(parents=True)
        (folder / "patch.diff").write_text(diff)
        (folder / "demo.sh").write_text(DEMO)
        (folder / "demo.py").write_text(sec["demo"] + "\n")
        if "from kit" in sec["demo"]:
            shutil.copy(DEFS / "kit.py", folder / "kit.py")
        (folder / "meta.json").write_text(json.dumps({"property": sec["property"], "needs": sec["needs"], "what_it_breaks": sec["breaks"]}, indent=1))
        r0, o0 = demo(folder, "/repo")
        r1, o1 = demo(folder, repo)
        msg = []
        if added:
            msg.append(f"touches own lines {sorted(added)[:3]}")
        if bad:
            msg.append(f"fails tests {bad[:3]}")
        if r0 != 0:
            msg.append(f"demo fails on clean tree: {o0}")
        if r1 == 0:
            msg.append("demo passes with the patch")
        if msg:
            shutil.rmtree(folder)
            return i, "REJECTED: " + "; ".join(msg)
        return i, "ok  (demo with patch: " + (o1.strip().splitlines() or ["?"])[-1][:110] + ")"
    finally:
        shutil.rmtree(d)


def run(i, checks, tier="quick"):
    d = copy()
    out = []
    try:
        repo = d / "repo"
        r = subprocess.run(["git", "apply", str(V / "seeded" / i / "patch.diff")], cwd=repo, capture_output=True, text=True)
        if r.returncode:
            return i, "patch does not apply"
        prop = json.load(open(V / "seeded" / i / "meta.json"))["property"]
        for c in checks or [prop]:
            r = subprocess.run([sys.executable, str(V / "check.py"), c, "--tier", tier], cwd=V, capture_output=True, text=True,
                               env={**os.environ, "VERIF_REPO": str(repo), "VERIF_SEED": "1"})
            cl = re.findall(r"clause (\S+) failed (\d+)", r.stdout)
            out.append(f"{c}: " + {0: "MISSED", 1: "caught " + ", ".join(f"{a}x{n}" for a, n in cl)}.get(r.returncode, f"rc={r.returncode} " + r.stdout[-300:]))
    finally:
        shutil.rmtree(d)
    return i, " | ".join(out)


if __name__ == "__main__":
    cmd, ids = sys.argv[1], sys.argv[2:]
    checks = []
    if "--" in ids:
        k = ids.index("--")
        ids, checks = ids[:k], ids[k + 1:]
    if cmd == "make":
        ids = ids or sorted(f.stem for f in DEFS.glob("*.txt") if not (V / "seeded" / f.stem).exists())
        with concurrent.futures.ThreadPoolExecutor(6) as ex:
            for r in ex.map(make, ids):
                print(*r, flush=True)
    else:
        ids = ids or sorted(f.name for f in (V / "seeded").iterdir())
        with concurrent.futures.ThreadPoolExecutor(3) as ex:
            for r in ex.map(lambda i: run(i, checks), ids):
                print(*r, flush=True)
