LEVEL = "model_checking"
ASSUMPTIONS = ["real arithmetic of module Dec (BigDecimal, 40 digits) is correct",
               "integrals are decided on spectra and responses that are cubic polynomials (a cubic spline reproduces them), with the error bound of the trapezoidal rule at the object's step",
               "bands are at least ten integration steps wide; changing the step of an object through interpolate(dlambda=...) is outside the property"]


def run(ctx):
    ctx.model_check("MCSolar")
    cases = ctx.generate("GenSolar", simulate=3000 if ctx.thorough else 700, depth=8)
    ev = ctx.record("rec_c14.py", cases=cases, shards=8)
    ctx.validate("TraceC14", ev)
