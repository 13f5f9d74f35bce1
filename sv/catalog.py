"""The rules and the properties they decide."""
from . import effects
from .rules import Rule
from .terms import DOMAINS, S, is_col, mk, num

RULES = []


def R(target, rid=None, **k):
    RULES.append(Rule(rid or target, target, **k))


LMT = {"other": "LogicalModel"}
R("AbstractModel.__init__")
for m in ("__init__", "empty", "variables", "append", "get_variables", "get_variables_by_name", "get_deleted_array", "get_fixed_array", "get_deleted_size", "get_fixed_size",
          "get_all_size", "get_size", "select_interaction", "select_interactions_by_variable", "add_interaction", "update_interaction", "remove_interaction", "get_attributes",
          "get_attribute", "fix_variable", "remove_constraint", "get_constraints", "get_constraints_by_label", "offset", "get_offset", "from_pyqubo", "to_physical"):
    R("LogicalModel." + m)
for m in ("to_ising", "to_qubo"):
    R("LogicalModel." + m, finding="LogicalModel." + m + "_sign")
R("LogicalModel.fix_variable", rid="reads _constraints", custom=effects.reads("_constraints"))
R("LogicalModel.from_pyqubo", rid="reads _mtype", custom=effects.reads("_mtype"))
R("LogicalModel.to_physical", rid="restores", custom=effects.restores)
R("LogicalModel.add_constraint", types={"constraint": "AbstractConstraint"})
R("LogicalModel.merge", types=LMT)
R("LogicalModel.__eq__", types=LMT)
R("LogicalModel.__ne__", types=LMT)
ONE = (("NHotConstraint", "delete_variable"), ("ZeroOrOneHotConstraint", "delete_variable"), ("EqualityConstraint", "delete_variable_eq"))
for c, sp in ONE:
    R("LogicalModel.delete_variable", rid="LogicalModel.delete_variable+" + c, spec="LogicalModel." + sp, constraint_cls=c)
for m in ("__init__", "add_interaction", "get_offset", "to_bqm", "to_polynomial"):
    R("PhysicalModel." + m)
R("PhysicalModel.__eq__", types={"other": "PhysicalModel"})
R("PhysicalModel.__ne__", types={"other": "PhysicalModel"})


# ---------------------------------------------------------------- constraints
CS = "constraints:"
CONSTRAINTS = ("NHotConstraint", "ZeroOrOneHotConstraint", "EqualityConstraint")
for m in ("__init__", "get_constraint_class", "get_label", "get_strength", "to_model"):
    R("AbstractConstraint." + m, spec=CS + "AbstractConstraint." + m)
for c in CONSTRAINTS:
    one = c != "EqualityConstraint"
    R(c + ".__init__", spec=CS + c + ".__init__")
    R(c + ".to_model", spec=CS + c + ".to_model", bags=("api",))
    R(c + ".__eq__", spec=CS + c + ".__eq__", types={"other": c})
    R(c + ".__ne__", spec=CS + "AbstractConstraint.__ne__", types={"other": c}, allow=(c + ".__eq__",))
    for m in ("add_variable", "remove_variable", "get_variables") if one else ("add_variable_to_1", "add_variable_to_2", "remove_variable_from_1", "remove_variable_from_2",
                                                                              "get_variables_1", "get_variables_2"):
        R(c + "." + m, spec=CS + ("AbstractConstraint." if one else c + ".") + m)
R("NHotConstraint.get_n", spec=CS + "AbstractConstraint.get_n")


# ---------------------------------------------------------------- an operation that raises changes nothing
MUTATORS = ["LogicalModel." + m for m in ("variables", "append", "add_interaction", "update_interaction", "remove_interaction", "fix_variable", "delete_variable", "add_constraint",
                                          "remove_constraint", "offset", "merge", "to_ising", "to_qubo", "empty", "from_pyqubo")]
MUTATORS += [c + "." + m for c in CONSTRAINTS[:2] for m in ("add_variable", "remove_variable")]
MUTATORS += ["EqualityConstraint." + m for m in ("add_variable_to_1", "add_variable_to_2", "remove_variable_from_1", "remove_variable_from_2")]
for m in MUTATORS:
    R(m, rid="atomic " + m, custom=effects.atomic, types=dict(LMT, constraint="AbstractConstraint"))


# ---------------------------------------------------------------- helpers
for m in ("_flatten", "elementwise_add", "elementwise_sub", "elementwise_max", "elementwise_min"):
    R("Functions." + m, spec="utils:Functions." + m)
for u in ("", "_ms", "_us", "_ns"):
    for i in ("", "_as_int"):
        f = "current_time" + u + i
        R("sawatabi.utils.time:" + f, spec="utils:" + f)
R("sawatabi.utils.profile:profile", spec="utils:profile", curry=True)


# ---------------------------------------------------------------- solvers
SO = "solver:"
PT = {"model": "PhysicalModel"}
for c, ms in {"LocalSolver": ("__init__", "solve", "default_beta_range"), "DWaveSolver": ("__init__", "solve"), "OptiganSolver": ("__init__", "solve")}.items():
    for m in ms:
        R(c + "." + m, spec=SO + c + "." + m, types=PT)
R("SawatabiSolver.solve", spec=SO + "SawatabiSolver.solve", types=PT, only=lambda k: not effects.of_self(k[1]))
for c in ("LocalSolver", "DWaveSolver", "OptiganSolver", "SawatabiSolver"):
    R(c + ".solve", rid="gated " + c + ".solve", custom=effects.gated, types=PT)
KEEPS = [c + ".solve" for c in ("LocalSolver", "DWaveSolver", "OptiganSolver", "SawatabiSolver")] + ["LocalSolver.default_beta_range", "PhysicalModel.to_bqm", "PhysicalModel.to_polynomial"]
KEEPS += ["LogicalModel." + m for m in ("add_interaction", "update_interaction", "remove_interaction", "from_pyqubo", "to_physical", "variables", "append", "fix_variable", "delete_variable",
                                        "get_attributes", "select_interaction", "select_interactions_by_variable", "remove_constraint", "offset", "__eq__")]
KEEPS += [c + ".__init__" for c in CONSTRAINTS] + [m for m in MUTATORS if "Constraint." in m] + ["PhysicalModel.add_interaction", "PhysicalModel.__eq__"] + [c + ".__eq__" for c in CONSTRAINTS]
for m in KEEPS:
    R(m, rid="unchanged " + m, custom=effects.unchanged, types=dict(PT, other="LogicalModel" if "Logical" in m else "PhysicalModel" if "Physical" in m else m.split(".")[0]))
OWNED = {m: {"_variables": 1} for c in CONSTRAINTS[:2] for m in (c + ".__init__", c + ".add_variable", c + ".remove_variable")}
OWNED.update({"EqualityConstraint." + m: {"_variables_1": 1, "_variables_2": 1} for m in ("__init__", "add_variable_to_1", "add_variable_to_2", "remove_variable_from_1", "remove_variable_from_2")})
OWNED["LogicalModel.merge"] = {"_variables": 1, "_interactions_array": 2, "_interactions_attrs": 1, "_deleted": 1, "_fixed": 1, "_constraints": 1}
for m, at in OWNED.items():
    R(m, rid="owned " + m, custom=effects.owned(at), types=LMT)
R("OptiganSolver.solve", rid="token", custom=effects.token, types=PT)


# ---------------------------------------------------------------- streaming algorithms
AL = "algorithm:"
for c in ("IndexAssigningStatefulDoFn", "WithTimestampTupleFn", "WithTimestampStrFn", "SolveDoFn"):
    R(f"AbstractAlgorithm.{c}.process", spec=AL + c + ".process", traces=("api", "call", "dispatch", "dyn", "yield"),
      skip=("index", "timestamp", "timestamp_state", "elements_state", "model_state", "sampleset_state"))
R("AbstractAlgorithm.SolveDoFn.process", rid="cells", custom=effects.cells)
R("AbstractAlgorithm._create_pipeline", rid="labels", custom=effects.labels)
R("AbstractAlgorithm._create_pipeline", spec=AL + "AbstractAlgorithm._create_pipeline")
for c in ("Attenuation", "Delta", "Incremental", "Partial", "Window"):
    R(c + ".create_pipeline", spec=AL + c + ".create_pipeline")
for m in ("read_from_pubsub", "read_from_pubsub_as_number", "read_from_pubsub_as_json", "read_from_text", "read_from_text_as_number", "read_from_text_as_json",
          "write_to_stdout", "write_to_pubsub", "write_to_text"):
    R("IO." + m, spec=AL + "IO." + m)


# ---------------------------------------------------------------- properties
def L(*ms):
    return ["LogicalModel." + m for m in ms]


DELETE = ["LogicalModel.delete_variable+" + c for c, _ in ONE]
TOMODEL = [c + ".to_model" for c in CONSTRAINTS]
PHYS = ["PhysicalModel.__init__", "PhysicalModel.add_interaction", "PhysicalModel.get_offset", "AbstractModel.__init__"]
EDIT = [c + "." + m for c in CONSTRAINTS[:2] for m in ("add_variable", "remove_variable", "get_variables")] + [
    "EqualityConstraint." + m for m in ("add_variable_to_1", "add_variable_to_2", "remove_variable_from_1", "remove_variable_from_2", "get_variables_1", "get_variables_2")]
BUILD = ["AbstractConstraint." + m for m in ("__init__", "get_constraint_class", "get_label", "get_strength")] + [c + ".__init__" for c in CONSTRAINTS] + ["NHotConstraint.get_n"]
SOLVE = ["LocalSolver.solve", "DWaveSolver.solve", "OptiganSolver.solve", "SawatabiSolver.solve"]


def no_offset(name):
    return "_offset" not in name


def table(name):
    """obligations about the interaction table"""
    return name == "analysis" or "_interactions" in name or name.startswith("trace")


def rejects(name):
    return name in ("analysis", "raises", "defaults")


# property -> rules; a pair (rule, filter) takes only some obligations of the rule
PROPS = {
    "C01": L("to_physical", "merge", "add_interaction", "remove_interaction") + TOMODEL + PHYS,
    "C02": L("to_physical", "merge") + ["restores"] + PHYS,
    "C03": L("to_physical") + PHYS + ["Functions._flatten"],
    "C04": ["PhysicalModel.to_bqm", "PhysicalModel.to_polynomial"] + PHYS,
    "C05": TOMODEL + EDIT + BUILD + ["AbstractConstraint.to_model"],
    "C06": EDIT + BUILD + ["Functions._flatten"] + L("add_constraint", "remove_constraint", "get_constraints", "get_constraints_by_label")
           + ["atomic " + m for m in MUTATORS if "Constraint." in m] + ["owned " + m for m in OWNED if "Constraint." in m],
    "C07": L("to_ising", "to_qubo", "offset", "get_offset"),
    "C08": L("fix_variable", "select_interactions_by_variable", "select_interaction", "offset", "get_offset") + ["reads _constraints"],
    "C09": DELETE + L("select_interactions_by_variable", "select_interaction", "remove_interaction", "to_physical") + [m for m in EDIT if "remove" in m or "get" in m],
    "C10": [(r, table) for r in L("__init__", "empty", "add_interaction", "update_interaction", "remove_interaction", "merge", "to_physical", "to_ising", "to_qubo", "fix_variable")]
           + ["atomic LogicalModel.add_interaction", "atomic LogicalModel.update_interaction"],
    "C11": L("__init__", "add_interaction", "update_interaction", "remove_interaction", "merge") + [(r, table) for r in L("to_ising", "to_qubo", "fix_variable")]
           + ["atomic LogicalModel.add_interaction"],
    "C12": L("add_interaction", "update_interaction", "select_interaction", "select_interactions_by_variable", "get_attributes", "get_attribute"),
    "C13": L("remove_interaction", "add_interaction", "update_interaction", "to_physical", "fix_variable", "select_interaction", "select_interactions_by_variable")
           + [(r, no_offset) for r in L("to_ising", "to_qubo")] + DELETE,
    "C14": L("merge") + ["owned LogicalModel.merge", "Functions.elementwise_max", "Functions.elementwise_sub"],
    "C15": ["atomic " + m for m in MUTATORS] + [(r, rejects) for r in L("variables", "append", "add_interaction", "update_interaction", "remove_interaction", "fix_variable",
            "add_constraint", "remove_constraint", "offset", "merge") + EDIT + BUILD],
    "C16": L("__eq__", "__ne__") + ["PhysicalModel.__eq__", "PhysicalModel.__ne__"] + [c + m for c in CONSTRAINTS for m in (".__eq__", ".__ne__")],
    "C17": [(r, rejects) for r in SOLVE + ["LocalSolver.default_beta_range", "AbstractModel.__init__"]] + ["gated " + s for s in SOLVE],
    "C18": ["OptiganSolver.__init__", "OptiganSolver.solve", "token", "PhysicalModel.to_polynomial"],
    "C19": ["SawatabiSolver.solve", "PhysicalModel.to_bqm"],
    "C20": ["SawatabiSolver.solve"],
    "C21": SOLVE + L("add_interaction", "update_interaction", "from_pyqubo") + ["PhysicalModel.to_bqm", "PhysicalModel.to_polynomial", "LocalSolver.default_beta_range"]
           + ["unchanged " + m for m in KEEPS],
    "C22": ["AbstractAlgorithm.SolveDoFn.process"],
    "C23": ["AbstractAlgorithm.SolveDoFn.process", "cells"],
    "C24": ["AbstractAlgorithm.SolveDoFn.process", "AbstractAlgorithm.WithTimestampTupleFn.process"],
    "C25": ["AbstractAlgorithm.SolveDoFn.process"] + L("to_physical"),
    "C26": ["AbstractAlgorithm._create_pipeline", "labels"] + [c + ".create_pipeline" for c in ("Attenuation", "Delta", "Incremental", "Partial", "Window")]
           + [f"AbstractAlgorithm.{c}.process" for c in ("IndexAssigningStatefulDoFn", "WithTimestampTupleFn", "WithTimestampStrFn")],
    "C27": [r.rid for r in RULES if r.rid.startswith("IO.")],
    "C28": L("from_pyqubo", "add_interaction", "offset") + ["reads _mtype"],
    "C29": ["LocalSolver.__init__", "LocalSolver.solve", "LocalSolver.default_beta_range", "DWaveSolver.__init__", "DWaveSolver.solve", "PhysicalModel.to_bqm"],
    "C30": L("variables", "append", "get_variables", "get_variables_by_name", "get_deleted_array", "get_fixed_array", "get_deleted_size", "get_fixed_size", "get_all_size", "get_size",
             "empty", "__init__") + ["Functions._flatten", "Functions.elementwise_add", "Functions.elementwise_sub", "Functions.elementwise_max", "Functions.elementwise_min",
                                     "AbstractModel.__init__"],
    "C33": [r.rid for r in RULES if r.rid.startswith("sawatabi.utils.")],
}
BYID = {r.rid: r for r in RULES}


def rules_of(prop):
    """[(rule, filter of its obligations)]"""
    out = []
    for x in PROPS.get(prop, ()):
        rid, f = x if isinstance(x, tuple) else (x, None)
        out.append((BYID[rid], f))
    return out


# closed value sets: representation invariants kept by the constructors and add_interaction (rules C10, C11, C17)
def _domains(t):
    if t.op == "item" and is_col(t.a[0]) == "body":
        return (num(1), num(2))
    if t.op == "attr" and t.a[1] == "_mtype":
        return (S("ising"), S("qubo"))
    return None


DOMAINS.append(_domains)
