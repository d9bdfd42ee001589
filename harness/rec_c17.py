"""The console logging switch; every history runs in a process of its own."""
import io
import json
import logging
import logging.handlers
import os
import sys

from common import attempt, run


def number(level):
    return int(level[1:]) if level[0] == "L" else getattr(logging, level)


def history(ops, rng, out):
    logging.disable(logging.NOTSET)
    console = io.StringIO()
    sys.stderr = console
    stdout, sys.stdout = sys.stdout, console
    from pyspectral import utils
    n = 0

    def put(**k):
        out.append(k)
    put(act="start")

    def record(name, level):
        nonlocal n
        n += 1
        mark = f"<<record {n}>>"
        before = len(console.getvalue())
        logging.getLogger("" if name == "root" else name).log(number(level), "text %s", mark)
        new = console.getvalue()[before:]
        put(act="log", name=name, level=level, count=new.count(mark),
            named=bool(new.count(logging.getLevelName(number(level))) >= 1 and (new.count(name) >= 1)))
    switched = False
    own = {}
    for op in ops:
        o = op["op"]
        before = len(console.getvalue())
        if o == "on" or o == "debug":
            if o == "debug":
                ok, _, _, _ = attempt(utils.debug_on)
                lv = "DEBUG"
            elif op["level"] == "default":
                ok, _, _, _ = attempt(utils.logging_on)
                lv = "WARNING"
            else:
                lv = op["level"]
                ok, _, _, _ = attempt(utils.logging_on, lv if op["as"] == "name" else getattr(logging, lv))
            put(act="on", level=lv, ok=ok, quiet=console.getvalue()[before:] == "")
            switched = True
        elif o == "off":
            ok, _, _, _ = attempt(utils.logging_off)
            put(act="off", ok=ok, quiet=console.getvalue()[before:] == "")
            switched = True
        elif o == "own":
            h = logging.handlers.BufferingHandler(100000)
            h.setLevel(op["level"])
            own[op["name"]] = own.get(op["name"], 0) + 1
            logging.getLogger("" if op["name"] == "root" else op["name"]).addHandler(h)
            put(act="own", name=op["name"])
        elif o == "get":
            ok, lg, _, _ = attempt(utils.get_logger, op["name"])
            put(act="get", name=op["name"], ok=bool(ok and lg is logging.getLogger(op["name"])),
                handlers=len(logging.getLogger(op["name"]).handlers) - own.get(op["name"], 0), quiet=console.getvalue()[before:] == "")
        else:
            record(op["name"], op["level"])
    if switched:
        for lv in ("DEBUG", "INFO", "WARNING", "ERROR", "CRITICAL"):
            record(rng.choice(["root", "pyspectral.a", "pyspectral.utils", "other"]), lv)
    sys.stdout = stdout


def main(rec):
    import pyspectral.utils  # noqa: F401
    for case in rec.cases():
        rec.new_history()
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            code = 0
            try:
                out = []
                history(case["ops"], rec.rng, out)
                with os.fdopen(w, "w") as f:
                    f.write(json.dumps(out))
            except BaseException as e:  # noqa: BLE001
                os.write(2, repr(e).encode())
                code = 5
            os._exit(code)
        os.close(w)
        with os.fdopen(r) as f:
            data = f.read()
        _, status = os.waitpid(pid, 0)
        if status:
            raise RuntimeError(f"history process failed: {status}")
        rec.rng.random()
        for e in json.loads(data):
            rec.emit("c17", **e)


if __name__ == "__main__":
    run(main)
