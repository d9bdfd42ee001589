LEVEL = "fault_enumeration"
ASSUMPTIONS = ["the spectral responses themselves do not change while a cache directory is in use",
               "overlap of two creations: one is held at a chosen point while the other runs to its end",
               "a configured table file is only used for one configuration (the user names it)"]


def run(ctx):
    ctx.model_check("TbCache", "MCTbCacheBig.cfg" if ctx.thorough else "MCTbCache.cfg")
    t = ctx.thorough
    if ctx.thorough:
        ctx.must_fail("TbCache", "MCTbCacheNonAtomic.cfg", "NeverPartial")
        ctx.must_fail("TbCache", "MCTbCacheShortName.cfg", "OwnTable")
    cases = ctx.generate("GenTbCache", "GenTbCache_plain.cfg", sample=None if t else 320)
    cases += ctx.generate("GenTbCache", "GenTbCache_conf.cfg", sample=None if t else 220)
    cases += ctx.generate("GenTbCache", "GenTbCache_die.cfg", sample=None if t else 320)
    cases += ctx.generate("GenTbCache", "GenTbCache_race.cfg", sample=2800 if t else 220)
    cases += ctx.generate("GenTbCache", "GenTbCache_mixed.cfg", simulate=200 if t else 12, depth=7,
                          sample=2000 if t else 110)
    ev = ctx.record("rec_c04.py", cases=cases, shards=8)
    ctx.notes.append({"races_that_overlapped": sum(1 for e in ev if e.get("paused"))})
    ctx.validate("TraceC04", ev)
