"""C02 continuous univariate posteriors."""

from mc import lattice as L

ID = "C02"
LEVEL = "model_checking"
TECHNIQUE = "explicit-state model checking: every multiset of observations and argument tuple up to a bound, real updates against an exact rational reference machine"
RULE = (
    "state = (prior, known parameters, multiset of observations or tuple of summary arguments); transition = one real "
    "update call; every state checked against Bayes' rule on a parameter grid and exact rational hyperparameters"
)
ASSUMPTIONS = ["float results agree with exact rational arithmetic within 1e-9 relative to the summed terms"]
BOUNDS = {"quick": "multisets of up to 3 observations; argument products", "thorough": "multisets of up to 4; larger argument products"}


def units(tier):
    from mc.spec import CONTINUOUS

    out = L.lattice_units(CONTINUOUS, 2 if tier == "quick" else 4, per=6)
    return out + L.sweep_units(L.SWEEP_CONT, tier)


def run(u, ctx):
    {"lattice": L.run_lattice, "sweep": L.run_sweep, "types": L.run_types}[u["kind"]](u, ctx)
