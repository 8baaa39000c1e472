"""Model-level TLC runs (spec/MC*.tla) backing each property: exhaustive within the bounds below.
The behaviours they emit are replayed into the library along with the generated programs."""
HIST = """SPECIFICATION Spec
CONSTANTS Scenario = "%s"
 Depth = %d
 Rich = %d
INVARIANTS InsideBuffer WellFormed Injective Owned Durable
PROPERTIES Isolation Stable ReadOnly
CHECK_DEADLOCK FALSE
"""
def hist(name, quick, thorough):
    return lambda tier: ("MCHist", HIST % ((name,) + (quick if tier == "quick" else thorough)))
DATA = """SPECIFICATION Spec
CONSTANTS Scenario = "%s"
 Rich = %d
INVARIANTS Holds Emit
CHECK_DEADLOCK FALSE
"""
def data(name, quick=0):
    return lambda tier: ("MCData", DATA % (name, quick if tier == "quick" else 1))
MODELS = {
 "O01": [hist("files", (3, 0), (4, 0))],
 "V01": [hist("views", (2, 0), (2, 1))],
 "V02": [hist("writes", (3, 0), (3, 1))],
 "D01": [data("dates")],
 "U01": [data("rng")],
 "R02": [data("nans")],
 "R03": [data("diffs")],
 "Q01": [data("stats")],
 "X01": [data("grids", 1)],
 "G01": [data("gather")],
 "S01": [data("sort", 1)],
 "P01": [data("types")],
 "B01": [data("bcast")],
 "I01": [data("ints")],
 "R01": [data("reduce", 1)],
 "T01": [data("text", 1)],
 "N01": [data("floats")],
 "K01": [data("contract")],
 "C01": [data("casts")],
 "M01": [data("rearr", 1)],
 "J01": [data("rearr", 1)],
 "S02": [data("sets", 1)],
}
def for_property(pid, tier):
    return [f(tier) for f in MODELS.get(pid, [])]
