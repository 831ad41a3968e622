"""Writes MANIFEST.json."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {
 "field": "TLA+ (TLC) exact-integer state machine of fields; every emitted transition replayed into the code",
}
N = {
 "C01": ("TLA+ Field.tla/Bases.tla checked with TLC; transitions (exact integer pre/post states) replayed through every transform form",
   "Model invariants exhaustive over the listed configurations; code compared on every emitted transition to rounding accuracy. Sizes, data and shapes are bounded samples; assumes the replay's own evaluation of Chebyshev/Fourier sums at the grid points."),
 "C02": ("TLA+ Sizes.tla checked with TLC over all sizes up to a bound; every reported state replayed",
   "Exhaustive over sizes up to the bound and over all base combinations for spaces; coordinates compared to 4e-15."),
 "C03": ("TLA+ Field.tla (invariant BCHold) checked with TLC; transitions replayed and boundary functionals applied to the code's results",
   "Boundary functionals evaluated on what the code returns (coefficients, stencil columns, grid values, round trips of arbitrary data); bounded sizes and data."),
 "C04": ("TLA+ Field.tla/Operators.tla (ext coordinates, least-squares projection as an invariant) checked with TLC; transitions replayed",
   "Exact expected coefficients; bounded sizes and data."),
 "C05": ("TLA+ Field.tla (derivative recurrences, invariants DerivLaw/ClosedForm) checked with TLC; gradient transitions replayed",
   "Exact expected derivatives; bounded sizes, orders and data."),
 "C06": ("TLA+ Operators.tla/Field.tla (closed forms, inverses over finite fields) checked with TLC; matrices compared column by column, dev and release builds",
   "Exact rational entries recovered from modular TLC runs; bounded sizes, sampled columns for large sizes."),
 "C07": ("TLA+ Field.tla on 1-4 axes (invariant AxisOrder) checked with TLC; transitions replayed on bases along each axis and on spaces",
   "All legal base combinations; sizes and data sampled."),
}
exec(open(os.path.join(V, "tools", "notes.py")).read()) if os.path.exists(os.path.join(V, "tools", "notes.py")) else None
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "sh setup.sh", "checks": [], "not_applicable": []}
for p in props:
    i = p["id"]
    if i in N:
        t, note = N[i]
        m["checks"].append({"property": i, "quick_cmd": f"python3 check.py {i}",
            "thorough_cmd": f"VERIF_TIER=thorough python3 check.py {i}", "technique": t,
            "level": "model_checking", "level_note": note})
    else:
        m["not_applicable"].append({"property": i, "reason": "check under construction"})
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
