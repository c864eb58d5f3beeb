import importlib

MODULES = {}
BUDGET = {}
ASSUME = {}


def _mods():
    for m in ("h_intra", "h_inter", "h_savings", "h_insertion", "h_nn", "h_sweep",
              "h_multi", "h_ls", "h_core", "h_io", "h_cli", "h_api", "h_wh", "h_intr",
              "h_rule", "h_one", "h_mip", "h_ext", "h_naive", "h_draw"):
        mod = importlib.import_module("harness." + m)
        for k, v in mod.PROPS.items():
            MODULES[k] = v
        BUDGET.update(getattr(mod, "BUDGET", {}))
        ASSUME.update(getattr(mod, "ASSUME", {}))


def harnesses(prop, tier):
    if not MODULES:
        _mods()
    hs = MODULES[prop](tier)
    names = [h.name for h in hs]
    assert len(set(names)) == len(names), "duplicate harness names"
    return hs


def time_budget(prop, tier):
    b = BUDGET.get(prop)
    if b:
        return b[0] if tier == "quick" else b[1]
    return 200.0 if tier == "quick" else 780.0


COMMON = [
    "numbers are dyadic rationals k/1024 (k any integer), so sums are exact in doubles; rounding of other reals is outside the claim",
    "the sizes and option combinations listed per harness; larger instances are outside the claim",
    "CPython, numpy and the z3 solver are trusted",
]


def assumptions(prop):
    return COMMON + ASSUME.get(prop, [])
