"""Regenerates MANIFEST.json from the property modules in props/."""
import importlib, json, pathlib, sys
V = pathlib.Path(__file__).resolve().parents[1]
sys.path.insert(0, str(V)); sys.dont_write_bytecode = True
props = [json.loads(x) for x in (V / "properties.jsonl").read_text().splitlines()]
checks, na = [], []
for p in props:
    i = p["id"]
    if (V / "props" / f"{i.lower()}.py").exists():
        m = importlib.import_module(f"props.{i.lower()}")
        checks.append({"property": i,
                       "quick_cmd": f"python3 check.py {i} --tier quick",
                       "thorough_cmd": f"python3 check.py {i} --tier thorough",
                       "evidence_file": f"evidence/{i}.json",
                       "technique": getattr(m, "TECHNIQUE", "TLA+ specification model-checked with TLC; behaviours generated from it replayed into the code; recorded traces checked by TLC"),
                       "level": m.LEVEL,
                       "level_note": getattr(m, "NOTE", None) or ("The specification is explored exhaustively within the stated bounds; the code is bound to it by checking every recorded call against the specification. Assumes: " + "; ".join(m.ASSUMPTIONS))})
    else:
        na.append({"property": i, "reason": "check not built yet"})
json.dump({"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks, "not_applicable": na,
           "notes": "No hooks in /repo: all observation is through the public API, the file system and the HTTP transport layer."},
          open(V / "MANIFEST.json", "w"), indent=1)
print(len(checks), "checks", len(na), "n/a")
