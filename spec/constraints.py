"""Reference text of the constraints."""
import numbers

import pyqubo

from sawatabi.model.constraint import EqualityConstraint as EQ, NHotConstraint as NH, ZeroOrOneHotConstraint as ZO
from sawatabi.model.logical_model import LogicalModel as LM
from sawatabi.utils.functions import Functions


def need(condition):
    if not condition:
        raise ValueError


def need_type(value, types):
    if not isinstance(value, types):
        raise TypeError


def variable_set(given):
    """the variables of an array, a single variable, a list or a set"""
    if isinstance(given, (list, set)):
        need(len(given) > 0)
        for v in given:
            need_type(v, (pyqubo.Spin, pyqubo.Binary))
        return set(given)
    if isinstance(given, pyqubo.Array):
        return set(Functions._flatten(given.bit_list))
    need_type(given, (pyqubo.Spin, pyqubo.Binary))
    return {given}


def start(constraint, label, strength):
    need_type(label, str)
    need(label)
    need_type(strength, numbers.Number)
    constraint._label = label
    constraint._strength = strength


def linear(model, constraint, v, weight):
    model.add_interaction(v, name=f"{v.label} ({constraint._label})", coefficient=weight * constraint._strength)


def quadratic(model, constraint, v, w, weight):
    model.add_interaction((v, w), name=f"{v.label}*{w.label} ({constraint._label})", coefficient=weight * constraint._strength)


class AbstractConstraint:
    def __init__(self, label="", strength=1.0):
        self._constraint_class = None
        start(self, label, strength)

    def get_constraint_class(self):
        return self._constraint_class

    def get_label(self):
        return self._label

    def get_strength(self):
        return self._strength

    def to_model(self):
        raise NotImplementedError

    # members of the classes with one variable set
    def get_variables(self):
        return self._variables

    def get_n(self):
        return self._n

    def add_variable(self, variables):
        self._variables = self._variables.union(variable_set(variables))

    def remove_variable(self, variables):
        gone = variable_set(variables)
        for v in gone:
            need(v in self._variables)
        self._variables = self._variables.difference(gone)

    def _discard_variable(self, target):
        self._variables = {v for v in self._variables if v.label != target.label}

    def __ne__(self, other):
        return not self.__eq__(other)


class NHotConstraint:
    def __init__(self, variables=None, n=1, label="Default N-hot Constraint", strength=1.0):
        start(self, label, strength)
        self._constraint_class = "NHotConstraint"
        self._variables = set() if variables is None else variable_set(variables)
        need_type(n, int)
        need(n > 0)
        self._n = n

    def to_model(self):
        # -strength * (sum x - n)^2 = strength * ((2n - 1) sum x - 2 sum of pairs) + constant
        model = LM(mtype="qubo")
        for v in self._variables:
            linear(model, self, v, 2 * self._n - 1)
        for v in self._variables:
            for w in self._variables:
                if v.label < w.label:
                    quadratic(model, self, v, w, -2)
        return model

    def __eq__(self, other):
        return (isinstance(other, NH) and self._constraint_class == other._constraint_class and self._variables == other._variables
                and self._n == other._n and self._label == other._label and self._strength == other._strength)


class ZeroOrOneHotConstraint:
    def __init__(self, variables=None, label="Default Zero-or-One-hot Constraint", strength=1.0):
        start(self, label, strength)
        self._constraint_class = "ZeroOrOneHotConstraint"
        self._variables = set() if variables is None else variable_set(variables)

    def to_model(self):
        # -strength * sum x * (sum x - 1) = -2 strength * sum of pairs
        model = LM(mtype="qubo")
        for v in self._variables:
            for w in self._variables:
                if v.label < w.label:
                    quadratic(model, self, v, w, -2)
        return model

    def __eq__(self, other):
        return (isinstance(other, ZO) and self._constraint_class == other._constraint_class and self._variables == other._variables
                and self._label == other._label and self._strength == other._strength)


class EqualityConstraint:
    def __init__(self, variables_1=None, variables_2=None, label="Default Equality Constraint", strength=1.0):
        start(self, label, strength)
        self._constraint_class = "EqualityConstraint"
        self._variables_1 = set() if variables_1 is None else variable_set(variables_1)
        self._variables_2 = set() if variables_2 is None else variable_set(variables_2)

    def get_variables_1(self):
        return self._variables_1

    def get_variables_2(self):
        return self._variables_2

    def add_variable_to_1(self, variables):
        self._variables_1 = self._variables_1.union(variable_set(variables))

    def add_variable_to_2(self, variables):
        self._variables_2 = self._variables_2.union(variable_set(variables))

    def remove_variable_from_1(self, variables):
        gone = variable_set(variables)
        for v in gone:
            need(v in self._variables_1)
        self._variables_1 = self._variables_1.difference(gone)

    def remove_variable_from_2(self, variables):
        gone = variable_set(variables)
        for v in gone:
            need(v in self._variables_2)
        self._variables_2 = self._variables_2.difference(gone)

    def _discard_variable(self, target):
        self._variables_1 = {v for v in self._variables_1 if v.label != target.label}
        self._variables_2 = {v for v in self._variables_2 if v.label != target.label}

    def to_model(self):
        # -strength * (sum x - sum y)^2
        model = LM(mtype="qubo")
        for v in self._variables_1.union(self._variables_2):
            linear(model, self, v, -1)
        for v in self._variables_1:
            for w in self._variables_2:
                quadratic(model, self, v, w, 2)
        for side in (self._variables_1, self._variables_2):
            for v in side:
                for w in side:
                    if v.label < w.label:
                        quadratic(model, self, v, w, -2)
        return model

    def __eq__(self, other):
        return (isinstance(other, EQ) and self._constraint_class == other._constraint_class and self._variables_1 == other._variables_1
                and self._variables_2 == other._variables_2 and self._label == other._label and self._strength == other._strength)
