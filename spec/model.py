"""Reference text of the models.  Never executed: the analysis summarises these functions
with the same rules as the repository's and compares the summaries."""
import copy
import numbers
import warnings

import dimod
import numpy as np
import pandas as pd
import pyqubo

from sawatabi.model.constraint import AbstractConstraint
from sawatabi.model.logical_model import LogicalModel as LM
from sawatabi.model.physical_model import PhysicalModel as PM
from sawatabi.utils.functions import Functions

COLUMNS = ["body", "name", "key", "key_0", "key_1", "interacts", "coefficient", "scale", "timestamp", "dirty", "removed"]


# ---------------------------------------------------------------- shared vocabulary
def need(condition):
    if not condition:
        raise ValueError


def need_type(value, types):
    if not isinstance(value, types):
        raise TypeError


def vartype_of(mtype):
    need(mtype in ("ising", "qubo"))
    return "SPIN" if mtype == "ising" else "BINARY"


def now():
    import time
    return time.time()


def rows_with(model, label):
    """names of the interactions that the variable takes part in"""
    t = model._interactions_array
    return [t["name"][i] for i in range(len(t["name"])) if t["key_0"][i] == label or t["key_1"][i] == label]


def interaction_of(target):
    """(body, key, name, interacts): a pair is put in the order of its labels"""
    if isinstance(target, (pyqubo.Spin, pyqubo.Binary)):
        return 1, target.label, target.label, target
    need(isinstance(target, tuple))
    need(len(target) == 2)
    for t in target:
        need_type(t, (pyqubo.Spin, pyqubo.Binary))
    a, b = target
    need(a.label != b.label)
    if b.label <= a.label:
        a, b = b, a
    return 2, (a.label, b.label), f"{a.label}*{b.label}", (a, b)


def name_of(model, target, name):
    """the interaction addressed by either a target or a name"""
    need(target or name)
    need(not (target and name))
    if target is not None:
        info = interaction_of(target)
    if name:
        need_type(name, (str, tuple))
        result = name
    else:
        result = info[2]
    need(result in model._interactions_array["name"])
    return result


# ---------------------------------------------------------------- logical model
class AbstractModel:
    def __init__(self, mtype=""):
        need(mtype in ("ising", "qubo"))
        self._mtype = mtype

    def get_mtype(self):
        return self._mtype


class LogicalModel:
    def __init__(self, mtype=""):
        need(mtype in ("ising", "qubo"))
        self._mtype = mtype
        self._variables = {}
        self._offset = 0.0
        self._deleted = {}
        self._fixed = {}
        self._constraints = {}
        self._default_keys = list(COLUMNS)
        self._interactions_array = {
            "body": [], "name": [], "key": [], "key_0": [], "key_1": [], "interacts": [],
            "coefficient": [], "scale": [], "timestamp": [], "dirty": [], "removed": []
        }
        self._interactions_attrs = []
        self._interactions_length = 0

    def empty(self):
        return LM(mtype=self._mtype)

    # -------------------------------------------- variables
    def variables(self, name, shape=()):
        if isinstance(name, pyqubo.Array):
            bits = list(Functions._flatten(name.bit_list))
            need(not (self._mtype == "ising" and isinstance(bits[0], pyqubo.Binary)))
            need(not (self._mtype == "qubo" and isinstance(bits[0], pyqubo.Spin)))
            label = bits[0].label
            self._variables[label[:label.index("[")]] = name
            return name
        need_type(name, str)
        need_type(shape, tuple)
        need(len(shape) > 0)
        for n in shape:
            need_type(n, int)
        result = pyqubo.Array.create(name, shape=shape, vartype=vartype_of(self._mtype))
        self._variables[name] = result
        return result

    def append(self, name, shape=()):
        need_type(name, str)
        need_type(shape, tuple)
        need(len(shape) > 0)
        for n in shape:
            need_type(n, (int, np.int64, np.int32))
        if name not in self._variables:
            return self.variables(name, shape)
        result = pyqubo.Array.create(name, shape=Functions.elementwise_add(self._variables[name].shape, shape), vartype=vartype_of(self._mtype))
        self._variables[name] = result
        return result

    def get_variables(self):
        return self._variables

    def get_variables_by_name(self, name):
        return self._variables[name]

    def get_deleted_array(self):
        return list(self._deleted)

    def get_fixed_array(self):
        return list(self._fixed)

    def get_deleted_size(self):
        return len(self._deleted)

    def get_fixed_size(self):
        return len(self._fixed)

    def get_all_size(self):
        total = 0
        for array in self._variables.values():
            n = 1
            for s in array.shape:
                n *= s
            total += n
        return total

    def get_size(self):
        total = 0
        for array in self._variables.values():
            n = 1
            for s in array.shape:
                n *= s
            total += n
        return total - len(self._deleted) - len(self._fixed)

    # -------------------------------------------- interactions
    def select_interaction(self, query, fmt="series"):
        table = pd.DataFrame(self._interactions_array)
        need(fmt in ("series", "dict"))
        if fmt == "dict":
            return table.query(query).to_dict(orient="index")
        return table.query(query)

    def select_interactions_by_variable(self, target):
        need_type(target, (pyqubo.Spin, pyqubo.Binary))
        table = pd.DataFrame(self._interactions_array)
        return table[(table["key_0"] == target.label) | (table["key_1"] == target.label)]["name"].values

    def add_interaction(self, target, name="", coefficient=0.0, scale=1.0, attributes=None, timestamp=None):
        need(target)
        given = {} if attributes is None else attributes
        when = now() if timestamp is None else timestamp
        need_type(coefficient, (numbers.Number, pyqubo.Express, pyqubo.Coefficient))
        need_type(scale, (numbers.Number, pyqubo.Express))
        need_type(given, dict)
        need_type(when, (int, float))
        body, key, default_name, interacts = interaction_of(target)
        if name:
            need_type(name, str)
        new_name = name if name else default_name
        need(new_name not in self._interactions_array["name"])

        columns = self._interactions_array
        columns["body"].append(body)
        columns["name"].append(new_name)
        columns["key"].append(key)
        columns["key_0"].append(key if body == 1 else key[0])
        columns["key_1"].append(np.nan if body == 1 else key[1])
        columns["interacts"].append(interacts)
        columns["coefficient"].append(coefficient)
        columns["scale"].append(scale)
        columns["timestamp"].append(when)
        columns["dirty"].append(True)
        columns["removed"].append(False)
        for column in self._interactions_attrs:
            columns[column].append(np.nan)
        for k, v in given.items():
            column = f"attributes.{k}"
            if column not in columns:
                columns[column] = [np.nan] * (self._interactions_length + 1)
                self._interactions_attrs.append(column)
            columns[column][-1] = v
        self._interactions_length += 1

    def update_interaction(self, target=None, name="", coefficient=None, scale=None, attributes=None, timestamp=None):
        need(target or name)
        need(not (target and name))
        if coefficient is not None:
            need_type(coefficient, numbers.Number)
        if scale is not None:
            need_type(scale, numbers.Number)
        if attributes is not None:
            need_type(attributes, dict)
        when = now() if timestamp is None else timestamp
        need_type(when, (int, float))
        if target is not None:
            info = interaction_of(target)
        columns = self._interactions_array
        if name:
            key = name
            need(key in columns["name"])
            need_type(name, (str, tuple))
        else:
            key = info[2]
            if key not in columns["name"]:
                return self.add_interaction(
                    target=target,
                    coefficient=0.0 if coefficient is None else coefficient,
                    scale=1.0 if scale is None else scale,
                    attributes=attributes,
                    timestamp=when,
                )
        i = columns["name"].index(key)
        need(not columns["removed"][i])
        if coefficient is not None:
            columns["coefficient"][i] = coefficient
        if scale is not None:
            columns["scale"][i] = scale
        if attributes is not None:
            for k, v in attributes.items():
                column = f"attributes.{k}"
                if column not in columns:
                    columns[column] = [np.nan] * self._interactions_length
                    self._interactions_attrs.append(column)
                columns[column][i] = v
        columns["timestamp"][i] = when
        columns["dirty"][i] = True

    def remove_interaction(self, target=None, name=""):
        columns = self._interactions_array
        i = columns["name"].index(name_of(self, target, name))
        columns["removed"][i] = True
        columns["dirty"][i] = True

    def get_attributes(self, target=None, name=""):
        i = self._interactions_array["name"].index(name_of(self, target, name))
        result = {}
        for column in self._interactions_attrs:
            result[column] = self._interactions_array[column][i]
        return result

    def get_attribute(self, target=None, name="", key=""):
        need_type(key, str)
        i = self._interactions_array["name"].index(name_of(self, target, name))
        result = {}
        for column in self._interactions_attrs:
            result[column] = self._interactions_array[column][i]
        return result[key]

    # -------------------------------------------- variables that leave
    def delete_variable(self, target):
        need(target)
        need_type(target, (pyqubo.Spin, pyqubo.Binary))
        self._deleted[target.label] = True
        for label, constraint in self._constraints.items():
            without_NHotConstraint(constraint, target)
        for name in rows_with(self, target.label):
            self.remove_interaction(name=name)

    def delete_variable_eq(self, target):
        need(target)
        need_type(target, (pyqubo.Spin, pyqubo.Binary))
        self._deleted[target.label] = True
        for label, constraint in self._constraints.items():
            without_EqualityConstraint(constraint, target)
        for name in rows_with(self, target.label):
            self.remove_interaction(name=name)

    def fix_variable(self, target, value):
        need(target)
        need_type(target, (pyqubo.Spin, pyqubo.Binary))
        if self._mtype == "ising":
            need(value in (1, -1))
        if self._mtype == "qubo":
            need(value in (1, 0))
        self._fixed[target.label] = True
        t = self._interactions_array
        alive = [n for n in rows_with(self, target.label) if not t["removed"][t["name"].index(n)]]
        for name in alive:
            columns = self._interactions_array
            i = columns["name"].index(name)
            if value != 0:
                weight = value * columns["coefficient"][i] * columns["scale"][i]
                if columns["body"][i] == 1:
                    self._offset -= weight
                elif columns["body"][i] == 2:
                    pair = columns["interacts"][i]
                    other = pair[1] if pair[0].label == target.label else pair[0]
                    self.add_interaction(target=other, name=f"{other.label} (before fixed: {name})", coefficient=weight)
            self.remove_interaction(name=name)

    # -------------------------------------------- constraints, offset
    def add_constraint(self, constraint):
        need_type(constraint, AbstractConstraint)
        self._constraints[constraint._label] = constraint

    def remove_constraint(self, label):
        need_type(label, str)
        self._constraints.pop(label)

    def get_constraints(self):
        return self._constraints

    def get_constraints_by_label(self, label):
        return self._constraints[label]

    def offset(self, offset):
        self._offset = offset

    def get_offset(self):
        return self._offset

    # -------------------------------------------- PyQUBO
    def from_pyqubo(self, expression):
        need_type(expression, (pyqubo.Express, pyqubo.Model))
        compiled = expression.compile() if isinstance(expression, pyqubo.Express) else expression
        where = compiled.structure
        for pair, value in compiled.compiled_qubo.qubo.items():
            first = self._variables[where[pair[0]][0]][where[pair[0]][1:]]
            second = self._variables[where[pair[1]][0]][where[pair[1]][1:]]
            weight = copy.deepcopy(value)
            if isinstance(weight, pyqubo.Coefficient):
                for term in weight.terms:
                    weight.terms[term] *= -1
            else:
                weight *= -1
            self.add_interaction(target=first if pair[0] == pair[1] else (first, second), coefficient=weight)
        self._offset = compiled.compiled_qubo.offset

    # -------------------------------------------- physical model
    def to_physical(self, placeholder=None):
        ph = {} if placeholder is None else placeholder
        before = (self._offset, copy.deepcopy(self._interactions_array), copy.deepcopy(self._interactions_attrs), self._interactions_length)
        marks = copy.deepcopy(self._deleted), copy.deepcopy(self._fixed)
        for constraint in self._constraints.values():
            self.merge(constraint.to_model())
        columns = self._interactions_array
        physical = PM(mtype=self._mtype)
        linear, quadratic = {}, {}
        gone = []
        for i in range(self._interactions_length):
            if columns["removed"][i]:
                gone.append(columns["name"][i])
            else:
                weight = value_of(number_of(columns["coefficient"][i], ph) * columns["scale"][i], ph)
                if columns["body"][i] == 1:
                    linear[columns["key"][i]] = linear.get(columns["key"][i], 0) + weight
                elif columns["body"][i] == 2:
                    quadratic[columns["key"][i]] = quadratic.get(columns["key"][i], 0) + weight
        physical._offset = value_of(number_of(self._offset, ph), ph)
        for k, v in linear.items():
            if v != 0.0:
                physical._raw_interactions[1][k] = v
                physical._variables_set.add(k)
        for k, v in quadratic.items():
            if v != 0.0:
                physical._raw_interactions[2][k] = v
                physical._variables_set.add(k[0])
                physical._variables_set.add(k[1])
        number = 0
        for array in self._variables.values():
            for bit in Functions._flatten(array.bit_list):
                if bit.label not in self._deleted and bit.label in physical._variables_set:
                    physical._label_to_index[bit.label] = number
                    physical._index_to_label[number] = bit.label
                    number += 1
        self._offset, self._interactions_array, self._interactions_attrs, self._interactions_length = before
        self._deleted, self._fixed = marks
        for name in gone:
            i = self._interactions_array["name"].index(name)
            for column in self._interactions_array:
                self._interactions_array[column].pop(i)
            self._interactions_length -= 1
        for i in range(self._interactions_length):
            self._interactions_array["dirty"][i] = False
        return physical

    # -------------------------------------------- merge
    def merge(self, other):
        need_type(other, LM)
        if self._mtype != other._mtype:
            if other._mtype == "qubo":
                other.to_ising()
            elif other._mtype == "ising":
                other.to_qubo()
        for name, array in self._variables.items():
            if name in other._variables:
                need(len(array.shape) == len(other._variables[name].shape))
        need(not (set(self._constraints) & set(other._constraints)))
        for name, array in other._variables.items():
            if name in self._variables:
                here = self._variables[name].shape
                self.append(name=name, shape=Functions.elementwise_sub(Functions.elementwise_max(array.shape, here), here))
            else:
                self._variables[name] = array
        mine, theirs = self._interactions_array, other._interactions_array
        n, m = self._interactions_length, other._interactions_length
        both = set(mine["name"]) & set(theirs["name"])
        merged = {}
        for column in self._default_keys:
            merged[column] = mine[column] + theirs[column]
        attrs = list(set(self._interactions_attrs) | set(other._interactions_attrs))
        for column in attrs:
            if column in self._interactions_attrs and column in theirs:
                merged[column] = mine[column] + theirs[column]
            elif column in self._interactions_attrs:
                merged[column] = mine[column] + [np.nan] * m
            elif column in other._interactions_attrs:
                merged[column] = [np.nan] * n + theirs[column]
        for i, name in enumerate(merged["name"]):
            if name in both:
                merged["name"][i] = f"{name} ({id(self) if i < n else id(other)})"
        self._interactions_array = merged
        self._interactions_attrs = attrs
        self._interactions_length = n + m
        self._constraints.update(other._constraints)
        self._offset += other._offset
        self._deleted.update(other._deleted)
        self._fixed.update(other._fixed)

    # -------------------------------------------- Ising <-> QUBO
    def to_ising(self):
        if self._mtype == "ising":
            return
        self._mtype = "ising"
        retype(self, pyqubo.Spin)
        for row in alive_rows(self, "(body == 1) and (removed == False)"):
            self.update_interaction(name=row["name"], coefficient=row["coefficient"] * 0.5)
            self._offset -= row["coefficient"] * row["scale"] * 0.5
        for row in alive_rows(self, "(body == 2) and (removed == False)"):
            self.update_interaction(name=row["name"], coefficient=row["coefficient"] * 0.25)
            self.add_interaction(target=row["interacts"][0], name=f"{row['key_0']} from {row['name']} (mtype additional {now()})",
                                 coefficient=row["coefficient"] * 0.25, scale=row["scale"])
            self.add_interaction(target=row["interacts"][1], name=f"{row['key_1']} from {row['name']} (mtype additional {now()})",
                                 coefficient=row["coefficient"] * 0.25, scale=row["scale"])
            self._offset -= row["coefficient"] * row["scale"] * 0.25

    def to_qubo(self):
        if self._mtype == "qubo":
            return
        self._mtype = "qubo"
        retype(self, pyqubo.Binary)
        for row in alive_rows(self, "(body == 1) and (removed == False)"):
            self.update_interaction(name=row["name"], coefficient=row["coefficient"] * 2.0)
            self._offset += row["coefficient"] * row["scale"]
        for row in alive_rows(self, "(body == 2) and (removed == False)"):
            self.update_interaction(name=row["name"], coefficient=row["coefficient"] * 4.0)
            self.add_interaction(target=row["interacts"][0], name=f"{row['key_0']} from {row['name']} (mtype additional {now()})",
                                 coefficient=row["coefficient"] * -2.0, scale=row["scale"])
            self.add_interaction(target=row["interacts"][1], name=f"{row['key_1']} from {row['name']} (mtype additional {now()})",
                                 coefficient=row["coefficient"] * -2.0, scale=row["scale"])
            self._offset -= row["coefficient"] * row["scale"]

    # the offset of the known finding: every contribution with the opposite sign
    def to_ising_sign(self):
        if self._mtype == "ising":
            return
        self._mtype = "ising"
        retype(self, pyqubo.Spin)
        for row in alive_rows(self, "(body == 1) and (removed == False)"):
            self.update_interaction(name=row["name"], coefficient=row["coefficient"] * 0.5)
            self._offset += row["coefficient"] * row["scale"] * 0.5
        for row in alive_rows(self, "(body == 2) and (removed == False)"):
            self.update_interaction(name=row["name"], coefficient=row["coefficient"] * 0.25)
            self.add_interaction(target=row["interacts"][0], name=f"{row['key_0']} from {row['name']} (mtype additional {now()})",
                                 coefficient=row["coefficient"] * 0.25, scale=row["scale"])
            self.add_interaction(target=row["interacts"][1], name=f"{row['key_1']} from {row['name']} (mtype additional {now()})",
                                 coefficient=row["coefficient"] * 0.25, scale=row["scale"])
            self._offset += row["coefficient"] * row["scale"] * 0.25

    def to_qubo_sign(self):
        if self._mtype == "qubo":
            return
        self._mtype = "qubo"
        retype(self, pyqubo.Binary)
        for row in alive_rows(self, "(body == 1) and (removed == False)"):
            self.update_interaction(name=row["name"], coefficient=row["coefficient"] * 2.0)
            self._offset -= row["coefficient"] * row["scale"]
        for row in alive_rows(self, "(body == 2) and (removed == False)"):
            self.update_interaction(name=row["name"], coefficient=row["coefficient"] * 4.0)
            self.add_interaction(target=row["interacts"][0], name=f"{row['key_0']} from {row['name']} (mtype additional {now()})",
                                 coefficient=row["coefficient"] * -2.0, scale=row["scale"])
            self.add_interaction(target=row["interacts"][1], name=f"{row['key_1']} from {row['name']} (mtype additional {now()})",
                                 coefficient=row["coefficient"] * -2.0, scale=row["scale"])
            self._offset += row["coefficient"] * row["scale"]

    # -------------------------------------------- equality
    def __eq__(self, other):
        return (
            isinstance(other, LM) and self._mtype == other._mtype and self._variables == other._variables and self._offset == other._offset
            and self._interactions_array == other._interactions_array and self._interactions_attrs == other._interactions_attrs
            and self._interactions_length == other._interactions_length and self._constraints == other._constraints
            and self._deleted == other._deleted and self._fixed == other._fixed
        )

    def __ne__(self, other):
        return not (
            isinstance(other, LM) and self._mtype == other._mtype and self._variables == other._variables and self._offset == other._offset
            and self._interactions_array == other._interactions_array and self._interactions_attrs == other._interactions_attrs
            and self._interactions_length == other._interactions_length and self._constraints == other._constraints
            and self._deleted == other._deleted and self._fixed == other._fixed
        )


def without_NHotConstraint(constraint, target):
    constraint._variables = {v for v in constraint._variables if v.label != target.label}


def without_EqualityConstraint(constraint, target):
    constraint._variables_1 = {v for v in constraint._variables_1 if v.label != target.label}
    constraint._variables_2 = {v for v in constraint._variables_2 if v.label != target.label}


def number_of(x, placeholder):
    return x.evaluate(feed_dict=placeholder) if isinstance(x, pyqubo.Coefficient) else x


def value_of(expression, placeholder):
    """a number or a PyQUBO expression of placeholders, with the placeholders filled in"""
    return (expression + pyqubo.Binary("sawatabi-fake-variable")).compile().to_qubo(feed_dict=placeholder)[1]


def alive_rows(model, query):
    return [row for _, row in pd.DataFrame(model._interactions_array).query(query).iterrows()]


def retype(model, kind):
    for name, array in model._variables.items():
        model._variables[name] = pyqubo.Array.create(name, shape=array.shape, vartype=vartype_of(model._mtype))
    for index, row in pd.DataFrame(model._interactions_array).query("removed == False").iterrows():
        x = row["interacts"]
        if isinstance(x, tuple):
            model._interactions_array["interacts"][index] = (kind(x[0].label), kind(x[1].label))
        else:
            model._interactions_array["interacts"][index] = kind(x.label)


# ---------------------------------------------------------------- physical model
class PhysicalModel:
    def __init__(self, mtype=""):
        need(mtype in ("ising", "qubo"))
        self._mtype = mtype
        self._raw_interactions = {1: {}, 2: {}}
        self._offset = 0.0
        self._variables_set = set()
        self._label_to_index = {}
        self._index_to_label = {}

    def add_interaction(self, name, body, coefficient):
        self._raw_interactions[body][name] = coefficient

    def get_offset(self):
        return self._offset

    def to_bqm(self, sign=-1.0):
        linear = {k: v * sign for k, v in self._raw_interactions[1].items()}
        quadratic = {k: v * sign for k, v in self._raw_interactions[2].items()}
        if self._mtype == "ising":
            kind = dimod.SPIN
        elif self._mtype == "qubo":
            kind = dimod.BINARY
        return dimod.BinaryQuadraticModel(linear, quadratic, self._offset, kind)

    def to_polynomial(self):
        number = self._label_to_index
        result = [[number[k], number[k], -v] for k, v in self._raw_interactions[1].items()]
        for (a, b), v in self._raw_interactions[2].items():
            result.append([number[a], number[b], -v])
        return result

    def __eq__(self, other):
        return (
            isinstance(other, PM) and self._mtype == other._mtype and self._raw_interactions == other._raw_interactions
            and self._offset == other._offset and self._label_to_index == other._label_to_index and self._index_to_label == other._index_to_label
        )

    def __ne__(self, other):
        return not (
            isinstance(other, PM) and self._mtype == other._mtype and self._raw_interactions == other._raw_interactions
            and self._offset == other._offset and self._label_to_index == other._label_to_index and self._index_to_label == other._index_to_label
        )
