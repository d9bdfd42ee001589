"""Run one TLC configuration and print a short verdict: tlcrun.py Module file.cfg"""
import sys, time
sys.path.insert(0, str(__import__("pathlib").Path(__file__).resolve().parents[1]))
from lib.runner import Ctx
c = Ctx("x", "quick", 1)
for cfg in sys.argv[2:]:
    t = time.time()
    rc, out = c.tlc(sys.argv[1], cfg)
    print(cfg, "rc", rc, f"{time.time() - t:.1f}s", [x for x in out.splitlines() if "violated" in x or "distinct states found" in x][-3:])
    if rc not in (0, 12, 13):
        print(out[:1500])
c.cleanup()
