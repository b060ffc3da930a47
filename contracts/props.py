"""What each check runs: the functions under contract and the bounded stand-ins."""
class Job:
    """one function (or group of lemmas) to verify: unit() -> Unit, contract() -> Contract, fn: name or function(unit) -> name"""
    def __init__(self, key, unit, fn, contract, budget=240, label=None):
        self.key, self.unit, self.fn, self.contract, self.budget = key, unit, fn, contract, budget
        self.label = label or f"{key}: {fn if isinstance(fn, str) else getattr(contract, '__name__', '')}"
class H:
    def __init__(self, src, flags=(), libs=(), secs=8, bound=""):
        self.src, self.flags, self.libs, self.secs, self.bound = src, list(flags), list(libs), secs, bound

GEO = lambda src: [H(src, [f"-DGLO={k*16}", f"-DGHI={k*16+16}"]) for k in range(3)]
PK = lambda n: [H("d_tree.cpp", [f"-DPROP={n}", f"-DPK={k}"]) for k in (0, 1)]
CLI = ["error", "CliParser", "CliParameter", "Action", "BoolParameter", "IntegerParameter", "StringParameter", "HelpAction", "display", "ColumnPrinter"]
HARNESS = {
 "Q01": [H("q_heap.cpp")], "Q02": [H("q_tour.cpp")], "Q03": GEO("q_geo.cpp"), "Q04": [H("q_stl.cpp")], "Q05": GEO("q_dedup.cpp"), "Q06": [H("q_mem.cpp")],
 "T01": [H("t_tree.cpp")], "T02": [H("t_bits.cpp")], "T03": [H("t_hash.cpp")],
 "R01": [H("p_pairs.cpp", ["-DPROP=1"])], "R02": [H("p_pairs.cpp", ["-DPROP=2"])],
 "D01": [H("d_mask.cpp")], "D02": [H("d_list.cpp", ["-DPROP=2"])], "D03": [H("d_list.cpp", ["-DPROP=3"])], "D04": PK(4), "D05": PK(5), "D06": PK(6),
 "C01": [H("c_names.cpp", libs=["error"])], "C02": [H("c_cli.cpp", libs=CLI)], "C03": [H("c_params.cpp", libs=["error", "CliParameter", "BoolParameter", "IntegerParameter", "StringParameter"])],
 "F01": [H("f_num.cpp", libs=["ColumnPrinter"])], "F02": [H("f_cols.cpp", libs=["ColumnPrinter"])], "F03": [H("f_wrap.cpp", libs=["display"])],
}
def jobs(pid):
    """the proof jobs of a property (imported lazily: building contracts is cheap, but not free)"""
    from . import plan
    return plan.PLAN.get(pid, [])
