LEVEL = "model_checking"
ASSUMPTIONS = ["the network is observed at the transport adapter of the requests library",
               "histories: every call from every start state, random histories of 9 steps beyond that"]


def run(ctx):
    ctx.model_check("RsrGate", "MCRsrGate.cfg")
    cases = ctx.generate("GenRsrGate", "GenRsrGateExh.cfg")
    cases += ctx.generate("GenRsrGate", "GenRsrGateSim.cfg", simulate=6000 if ctx.thorough else 300, depth=12,
                          sample=20000 if ctx.thorough else 900)
    ev = ctx.record("rec_c01.py", cases=cases, shards=8)
    ctx.validate("TraceC01", ev, cfg="TraceGate.cfg")
