"""Edits that keep the behaviour, written by hand: no rule may report a difference on any of them (development aid, not part of a check)."""
LM = "sawatabi/model/logical_model.py"
PM = "sawatabi/model/physical_model.py"
NH = "sawatabi/model/constraint/n_hot_constraint.py"
EQ = "sawatabi/model/constraint/equality_constraint.py"
ZO = "sawatabi/model/constraint/zero_or_one_hot_constraint.py"
AC = "sawatabi/model/constraint/abstract_constraint.py"
AA = "sawatabi/algorithm/abstract_algorithm.py"
IO = "sawatabi/algorithm/io.py"
AT = "sawatabi/algorithm/attenuation.py"
OS = "sawatabi/solver/optigan_solver.py"
LS = "sawatabi/solver/local_solver.py"
DS = "sawatabi/solver/dwave_solver.py"
SS = "sawatabi/solver/sawatabi_solver.py"
FN = "sawatabi/utils/functions.py"
PR = "sawatabi/utils/profile.py"
TI = "sawatabi/utils/time.py"
BM = "sawatabi/base_mixin.py"
R = []


def r(name, rel, *pairs):
    R.append((name, rel, pairs))


# ---------------------------------------------------------------- logical model
r("variables: early vartype, local array", LM, ('''        vartype = self._modeltype_to_vartype(self._mtype)
        self._variables[name] = pyqubo.Array.create(name, shape=shape, vartype=vartype)
        return self._variables[name]

    def append''', '''        array = pyqubo.Array.create(name, shape=shape, vartype=self._modeltype_to_vartype(self._mtype))
        self._variables[name] = array
        return array

    def append'''))
r("variables: first element named", LM, ('''            flattened = list(Functions._flatten(name.bit_list))
            if ((self._mtype == constants.MODEL_ISING) and isinstance(flattened[0], pyqubo.Binary)) or (
                (self._mtype == constants.MODEL_QUBO) and isinstance(flattened[0], pyqubo.Spin)
            ):
                raise TypeError("Model type and PyQUBO Array type mismatch.")

            # Retrieve label from the pyqubo variable
            found = flattened[0].label.index("[")
            this_name = flattened[0].label[:found]

            self._variables[this_name] = name
            return self._variables[this_name]
''', '''            first = list(Functions._flatten(name.bit_list))[0]
            is_ising = self._mtype == constants.MODEL_ISING
            is_qubo = self._mtype == constants.MODEL_QUBO
            if is_ising and isinstance(first, pyqubo.Binary):
                raise TypeError("Model type and PyQUBO Array type mismatch.")
            if is_qubo and isinstance(first, pyqubo.Spin):
                raise TypeError("Model type and PyQUBO Array type mismatch.")

            label = first.label
            self._variables[label[: label.index("[")]] = name
            return name
'''))
r("variables: first element by next", LM, ('''            flattened = list(Functions._flatten(name.bit_list))
            if ((self._mtype == constants.MODEL_ISING) and isinstance(flattened[0], pyqubo.Binary)) or (
                (self._mtype == constants.MODEL_QUBO) and isinstance(flattened[0], pyqubo.Spin)
            ):
                raise TypeError("Model type and PyQUBO Array type mismatch.")

            # Retrieve label from the pyqubo variable
            found = flattened[0].label.index("[")
            this_name = flattened[0].label[:found]
''', '''            first = next(Functions._flatten(name.bit_list))
            wrong = pyqubo.Binary if self._mtype == constants.MODEL_ISING else pyqubo.Spin
            if isinstance(first, wrong):
                raise TypeError("Model type and PyQUBO Array type mismatch.")

            # Retrieve label from the pyqubo variable
            this_name = first.label.split("[", 1)[0]
'''))
r("append: inverted condition", LM, ('''        if name not in self._variables:
            # raise KeyError(f"Variables name '{name}' is not defined in the model.")
            warnings.warn(f"Variables name '{name}' is not defined in the model, but will be created instead of appending it.")
            return self.variables(name, shape)

        # tuple elementwise addition
        new_shape = Functions.elementwise_add(self._variables[name].shape, shape)
        vartype = self._modeltype_to_vartype(self._mtype)

        self._variables[name] = pyqubo.Array.create(name, shape=new_shape, vartype=vartype)
        return self._variables[name]
''', '''        if name in self._variables:
            current = self._variables[name]
            new_shape = Functions.elementwise_add(current.shape, shape)
            self._variables[name] = pyqubo.Array.create(name, shape=new_shape, vartype=self._modeltype_to_vartype(self._mtype))
            return self._variables[name]
        warnings.warn(f"Variables name '{name}' is not defined in the model, but will be created instead of appending it.")
        return self.variables(name, shape)
'''))
r("select: elif chain", LM, ('''        if fmt == constants.SELECT_SERIES:
            return searched
        if fmt == constants.SELECT_DICT:
            return searched.to_dict(orient="index")
        raise ValueError(f"Format '{fmt}' is invalid.")
''', '''        if fmt == constants.SELECT_SERIES:
            result = searched
        elif fmt == constants.SELECT_DICT:
            result = searched.to_dict(orient="index")
        else:
            raise ValueError("Format '{}' is invalid.".format(fmt))
        return result
'''))
r("select_by_variable: mask", LM, ('''        return self._interactions[(self._interactions["key_0"] == target.label) | (self._interactions["key_1"] == target.label)]["name"].values
''', '''        df = self._interactions
        label = target.label
        mask = (df["key_0"] == label) | (df["key_1"] == label)
        return df[mask]["name"].values
'''))
r("select_by_variable: check first", LM, ('''        self._update_interactions_dataframe_from_arrays()

        # Find interactions which interacts with the given variable.
        self._check_argument_type("target", target, (pyqubo.Spin, pyqubo.Binary))
''', '''        # Find interactions which interacts with the given variable.
        self._check_argument_type("target", target, (pyqubo.Spin, pyqubo.Binary))
        self._update_interactions_dataframe_from_arrays()
'''))
r("select_by_variable: list comprehension", LM, ('''        return self._interactions[(self._interactions["key_0"] == target.label) | (self._interactions["key_1"] == target.label)]["name"].values
''', '''        arr = self._interactions_array
        return np.array([n for n, a, b in zip(arr["name"], arr["key_0"], arr["key_1"]) if target.label in (a, b)], dtype=object)
'''))
r("add: row dict and loop", LM, ('''        self._interactions_array["body"].append(body)
        self._interactions_array["name"].append(internal_name)
        self._interactions_array["key"].append(interaction_info["key"])
        self._interactions_array["key_0"].append(keys[0])
        self._interactions_array["key_1"].append(keys[1])
        self._interactions_array["interacts"].append(interaction_info["interacts"])
        self._interactions_array["coefficient"].append(coefficient)
        self._interactions_array["scale"].append(scale)
        self._interactions_array["timestamp"].append(timestamp)
        # Note: dirty flag (= modification flag) means this interaction has not converted to a physical model yet.
        # dirty flag will be False when the interaction is written to a physical model.
        self._interactions_array["dirty"].append(True)
        self._interactions_array["removed"].append(False)
''', '''        row = {
            "body": body,
            "name": internal_name,
            "key": interaction_info["key"],
            "key_0": keys[0],
            "key_1": keys[1],
            "interacts": interaction_info["interacts"],
            "coefficient": coefficient,
            "scale": scale,
            "timestamp": timestamp,
            "dirty": True,
            "removed": False,
        }
        for column, value in row.items():
            self._interactions_array[column].append(value)
'''))
r("add: helper for the columns", LM, ('''        self._interactions_array["body"].append(body)
        self._interactions_array["name"].append(internal_name)
        self._interactions_array["key"].append(interaction_info["key"])
        self._interactions_array["key_0"].append(keys[0])
        self._interactions_array["key_1"].append(keys[1])
''', '''        columns = self._interactions_array
        key_0, key_1 = keys
        columns["name"].append(internal_name)
        columns["body"].append(body)
        columns["key"].append(interaction_info["key"])
        columns["key_0"].append(key_0)
        columns["key_1"].append(key_1)
'''))
r("add: attributes helper", LM, ('''        for k, v in attributes.items():
            attrs_key = f"attributes.{k}"
            if attrs_key not in self._interactions_array:
                self._interactions_array[attrs_key] = [np.nan] * (self._interactions_length + 1)
                self._interactions_attrs.append(attrs_key)
            self._interactions_array[attrs_key][-1] = v

        self._interactions_length += 1
''', '''        self._set_attributes(attributes, self._interactions_length, self._interactions_length + 1)
        self._interactions_length += 1

    def _set_attributes(self, attributes, position, length):
        for k, v in attributes.items():
            column = "attributes." + str(k)
            if column not in self._interactions_array:
                self._interactions_array[column] = [np.nan for _ in range(length)]
                self._interactions_attrs.append(column)
            self._interactions_array[column][position] = v
'''))
r("add: length first", LM, ('''                self._interactions_array[attrs_key] = [np.nan] * (self._interactions_length + 1)
                self._interactions_attrs.append(attrs_key)
            self._interactions_array[attrs_key][-1] = v

        self._interactions_length += 1
''', '''                self._interactions_array[attrs_key] = [np.nan] * self._interactions_length
                self._interactions_attrs.append(attrs_key)
            self._interactions_array[attrs_key][-1] = v
'''), ('''        # Expand existing attributes
        for attr in''', '''        self._interactions_length += 1

        # Expand existing attributes
        for attr in'''))
r("add: default attributes and name by or", LM, ('''        if attributes is None:
            attributes = {}
        if not target:''', '''        attributes = {} if attributes is None else attributes
        if not target:'''), ('''        if name:
            # Use the given specific name
            self._check_argument_type("name", name, str)
            internal_name = name
        else:
            # Automatically named by the default name
            internal_name = interaction_info["name"]

        if self._has_name(internal_name):
            if not self._is_removed(internal_name):
                raise ValueError(f"An interaction named '{internal_name}' already exists. Cannot add the same name.")
            raise ValueError(f"An interaction named '{internal_name}' is already removed.")
''', '''        if name:
            self._check_argument_type("name", name, str)
        internal_name = name or interaction_info["name"]

        if internal_name in self._interactions_array["name"]:
            if self._is_removed(internal_name):
                raise ValueError(f"An interaction named '{internal_name}' is already removed.")
            else:
                raise ValueError(f"An interaction named '{internal_name}' already exists. Cannot add the same name.")
'''))
r("add: keys by conditional", LM, ('''        if body == 1:
            keys = (interaction_info["key"], np.nan)
        elif body == 2:
            keys = interaction_info["key"]
''', '''        key = interaction_info["key"]
        keys = key if body == constants.INTERACTION_QUADRATIC else (key, np.nan)
'''))
r("info: sorted pair", LM, ('''            if target[0].label < target[1].label:
                interacts = (target[0], target[1])
                key = (target[0].label, target[1].label)
                name = f"{target[0].label}*{target[1].label}"
            else:
                interacts = (target[1], target[0])
                key = (target[1].label, target[0].label)
                name = f"{target[1].label}*{target[0].label}"
''', '''            first, second = target
            if second.label < first.label:
                first, second = second, first
            interacts = (first, second)
            key = (first.label, second.label)
            name = f"{first.label}*{second.label}"
'''))
r("info: sorted by key function", LM, ('''            if target[0].label < target[1].label:
                interacts = (target[0], target[1])
                key = (target[0].label, target[1].label)
                name = f"{target[0].label}*{target[1].label}"
            else:
                interacts = (target[1], target[0])
                key = (target[1].label, target[0].label)
                name = f"{target[1].label}*{target[0].label}"
''', '''            interacts = tuple(sorted(target, key=lambda v: v.label))
            key = tuple(v.label for v in interacts)
            name = "*".join(key)
'''))
r("info: early returns", LM, ('''            body = constants.INTERACTION_LINEAR
            interacts = target
            key = target.label
            name = target.label
        elif isinstance(target, tuple):
            if len(target) != 2:
                raise TypeError("The length of a tuple 'target' must be two.")
            for i in target:
                if not isinstance(i, (pyqubo.Spin, pyqubo.Binary)):
                    raise TypeError("All elements of 'target' must be a 'pyqubo.Spin' or 'pyqubo.Binary'.")
            body''', '''            return {"body": constants.INTERACTION_LINEAR, "interacts": target, "key": target.label, "name": target.label}
        if isinstance(target, tuple):
            if len(target) != 2:
                raise TypeError("The length of a tuple 'target' must be two.")
            if not all(isinstance(i, (pyqubo.Spin, pyqubo.Binary)) for i in target):
                raise TypeError("All elements of 'target' must be a 'pyqubo.Spin' or 'pyqubo.Binary'.")
            body'''))
r("update: helper and order", LM, ('''        # update only properties which is given by arguments
        if coefficient is not None:
            self._interactions_array["coefficient"][update_idx] = coefficient
        if scale is not None:
            self._interactions_array["scale"][update_idx] = scale
        if attributes is not None:''', '''        given = {"coefficient": coefficient, "scale": scale}
        for column, new_value in given.items():
            if new_value is not None:
                self._interactions_array[column][update_idx] = new_value
        if attributes is not None:'''))
r("update: attributes or empty", LM, ('''        if attributes is not None:
            for k, v in attributes.items():
                attrs_key = f"attributes.{k}"
                if attrs_key not in self._interactions_array:
                    self._interactions_array[attrs_key] = [np.nan] * self._interactions_length
                    self._interactions_attrs.append(attrs_key)
                self._interactions_array[attrs_key][update_idx] = v
        self._interactions_array["timestamp"][update_idx] = timestamp
        self._interactions_array["dirty"][update_idx] = True
''', '''        self._interactions_array["dirty"][update_idx] = True
        self._interactions_array["timestamp"][update_idx] = timestamp
        for k, v in (attributes or {}).items():
            attrs_key = f"attributes.{k}"
            column = self._interactions_array.get(attrs_key)
            if column is None:
                column = [np.nan] * self._interactions_length
                self._interactions_array[attrs_key] = column
                self._interactions_attrs.append(attrs_key)
            column[update_idx] = v
'''))
r("update: fallback values inline", LM, ('''                _coefficient = 0.0 if coefficient is None else coefficient
                _scale = 1.0 if scale is None else scale
                return self.add_interaction(target=target, coefficient=_coefficient, scale=_scale, attributes=attributes, timestamp=timestamp)
''', '''                values = {"attributes": attributes, "timestamp": timestamp}
                values["coefficient"] = coefficient if coefficient is not None else 0.0
                values["scale"] = scale if scale is not None else 1.0
                return self.add_interaction(target, **values)
'''))
r("remove: helper index", LM, ('''        remove_idx = self._interactions_array["name"].index(internal_name)

        # logically remove
        # This will be physically removed when it's converted to a physical model.
        self._interactions_array["removed"][remove_idx] = True
        self._interactions_array["dirty"][remove_idx] = True
''', '''        self._mark_removed(self._interactions_array["name"].index(internal_name))

    def _mark_removed(self, position):
        for column in ("dirty", "removed"):
            self._interactions_array[column][position] = True
'''))
r("has_name and is_removed inlined", LM, ('''        return internal_name in self._interactions_array["name"]
''', '''        return any(n == internal_name for n in self._interactions_array["name"])
'''), ('''        idx = self._interactions_array["name"].index(internal_name)
        return self._interactions_array["removed"][idx]
''', '''        return self._interactions_array["removed"][self._interactions_array["name"].index(internal_name)]
'''))
r("internal name: nested differently", LM, ('''        if target is not None:
            interaction_info = self._get_interaction_info_from_target(target)

        if name:
            # Already given the specific name
            self._check_argument_type("name", name, (str, tuple))
            internal_name = name
        else:
            # Will be automatically named by the default name
            internal_name = interaction_info["name"]

        if not self._has_name(internal_name):
            raise KeyError(f"An interaction named '{internal_name}' does not exist yet in the model.")

        return internal_name
''', '''        if target is not None:
            interaction_info = self._get_interaction_info_from_target(target)
        if name:
            self._check_argument_type("name", name, (str, tuple))
        internal_name = name if name else interaction_info["name"]

        if self._has_name(internal_name):
            return internal_name
        raise KeyError(f"An interaction named '{internal_name}' does not exist yet in the model.")
'''))
r("delete: order of the steps", LM, ('''        # Deal with constraints
        for k, v in self.get_constraints().items():
            v._discard_variable(target)

        # Remove related interations
        removed = self.select_interactions_by_variable(target)
        for r in removed:
            self.remove_interaction(name=r)
''', '''        # Remove related interations
        for interaction_name in self.select_interactions_by_variable(target):
            self.remove_interaction(name=interaction_name)

        # Deal with constraints
        for constraint in self._constraints.values():
            constraint._discard_variable(target)
'''))
r("fix: allowed values table", LM, ('''        if self.get_mtype() == constants.MODEL_ISING:
            if value not in [1, -1]:
                raise ValueError("'value' must be one of [1, -1] because the model is an Ising model.")
        elif self.get_mtype() == constants.MODEL_QUBO:
            if value not in [1, 0]:
                raise ValueError("'value' must be one of [1, 0] because the model is a QUBO model.")
''', '''        if self._mtype == constants.MODEL_ISING and value not in (-1, 1):
            raise ValueError("'value' must be one of [1, -1] because the model is an Ising model.")
        if self._mtype == constants.MODEL_QUBO and value not in (0, 1):
            raise ValueError("'value' must be one of [1, 0] because the model is a QUBO model.")
'''))
r("fix: body helpers", LM, ('''                    # Choose a variable that will remain
                    interacts = self._interactions_array["interacts"][idx]
                    if interacts[0].label == target.label:
                        interacts_to = interacts[1]
                    elif interacts[1].label == target.label:
                        interacts_to = interacts[0]
                    new_name = f"{interacts_to.label} (before fixed: {s})"
                    new_coefficient = value * self._interactions_array["coefficient"][idx] * self._interactions_array["scale"][idx]
                    self.add_interaction(target=interacts_to, name=new_name, coefficient=new_coefficient)
                    self.remove_interaction(name=s)
''', '''                    self._fix_pair(s, idx, target, value)

    def _fix_pair(self, name, idx, target, value):
        first, second = self._interactions_array["interacts"][idx]
        remaining = second if first.label == target.label else first
        weight = self._interactions_array["coefficient"][idx] * self._interactions_array["scale"][idx]
        self.add_interaction(remaining, name=f"{remaining.label} (before fixed: {name})", coefficient=weight * value)
        self.remove_interaction(name=name)
'''))
r("fix: one loop, value tested inside", LM, ('''        if value == 0:
            for s in selected:
                self.remove_interaction(name=s)
        elif value in [1, -1]:
            for s in selected:
                idx = self._interactions_array["name"].index(s)
                body = self._interactions_array["body"][idx]
                # 1-body interaction will become an offset
                if body == 1:
                    self._offset += -1 * value * self._interactions_array["coefficient"][idx] * self._interactions_array["scale"][idx]
                    self.remove_interaction(name=s)
                # 2-body interaction will become a 1-body interaction
                elif body == 2:
''', '''        for s in selected:
            if value == 0:
                self.remove_interaction(name=s)
            else:
                idx = self._interactions_array["name"].index(s)
                if self._interactions_array["body"][idx] == 1:
                    weight = self._interactions_array["coefficient"][idx] * self._interactions_array["scale"][idx]
                    self._offset -= value * weight
                    self.remove_interaction(name=s)
                else:
'''))
r("fix: selected built by loop", LM, ('''        selected = [s for s in self.select_interactions_by_variable(target) if not self._is_removed(s)]

        if len(selected) <= 0:
''', '''        selected = []
        for s in self.select_interactions_by_variable(target):
            if self._is_removed(s):
                continue
            selected.append(s)

        if not selected:
'''))
r("constraints: one-liners", LM, ('''        label = constraint.get_label()
        self._constraints[label] = constraint
''', '''        self._constraints.update({constraint.get_label(): constraint})
'''), ('''        self._constraints.pop(label)
''', '''        del self._constraints[label]
'''))
r("from_pyqubo: helper for the variable", LM, ('''            variable_0 = self.get_variables_by_name(structure[k[0]][0])
            target_0 = variable_0[structure[k[0]][1:]]

            # For the second variable.
            variable_1 = self.get_variables_by_name(structure[k[1]][0])
            target_1 = variable_1[structure[k[1]][1:]]
''', '''            target_0, target_1 = (self._variables[structure[label][0]][structure[label][1:]] for label in k)
'''))
r("from_pyqubo: target first", LM, ('''            if k[0] == k[1]:
                # 1-body
                self.add_interaction(target=target_0, coefficient=coeff)
            else:
                # 2-body
                self.add_interaction(target=(target_0, target_1), coefficient=coeff)
''', '''            target = target_0 if k[0] == k[1] else (target_0, target_1)
            self.add_interaction(target, coefficient=coeff)
'''), ('''        if isinstance(expression, pyqubo.Express):
            pyqubo_model = expression.compile()
        else:
            pyqubo_model = expression
''', '''        pyqubo_model = expression.compile() if isinstance(expression, pyqubo.Express) else expression
'''))
r("from_pyqubo: coefficient helper", LM, ('''            coeff = copy.deepcopy(v)  # Do not modify the given PyQUBO model
            if isinstance(coeff, pyqubo.Coefficient):
                assert isinstance(coeff.terms, collections.defaultdict)
                for placeholder_k, _ in coeff.terms.items():
                    coeff.terms[placeholder_k] *= -1
            else:
                coeff *= -1
''', '''            if isinstance(v, pyqubo.Coefficient):
                coeff = copy.deepcopy(v)
                assert isinstance(coeff.terms, collections.defaultdict)
                for placeholder_k in coeff.terms:
                    coeff.terms[placeholder_k] = -coeff.terms[placeholder_k]
            else:
                coeff = -v
'''))
r("to_physical: defaultdict", LM, ('''            if self._interactions_array["body"][i] == constants.INTERACTION_LINEAR:
                if self._interactions_array["key"][i] in linear:
                    linear[self._interactions_array["key"][i]] += coeff
                else:
                    linear[self._interactions_array["key"][i]] = coeff

            elif self._interactions_array["body"][i] == constants.INTERACTION_QUADRATIC:
                if self._interactions_array["key"][i] in quadratic:
                    quadratic[self._interactions_array["key"][i]] += coeff
                else:
                    quadratic[self._interactions_array["key"][i]] = coeff
''', '''            key = self._interactions_array["key"][i]
            if self._interactions_array["body"][i] == constants.INTERACTION_LINEAR:
                linear[key] += coeff
            elif self._interactions_array["body"][i] == constants.INTERACTION_QUADRATIC:
                quadratic[key] += coeff
'''), ("        linear, quadratic = {}, {}\n        will_remove", "        linear, quadratic = collections.defaultdict(float), collections.defaultdict(float)\n        will_remove"))
r("to_physical: get with default, one dict", LM, ('''            if self._interactions_array["body"][i] == constants.INTERACTION_LINEAR:
                if self._interactions_array["key"][i] in linear:
                    linear[self._interactions_array["key"][i]] += coeff
                else:
                    linear[self._interactions_array["key"][i]] = coeff

            elif self._interactions_array["body"][i] == constants.INTERACTION_QUADRATIC:
                if self._interactions_array["key"][i] in quadratic:
                    quadratic[self._interactions_array["key"][i]] += coeff
                else:
                    quadratic[self._interactions_array["key"][i]] = coeff
''', '''            key = self._interactions_array["key"][i]
            body = self._interactions_array["body"][i]
            sums = linear if body == constants.INTERACTION_LINEAR else quadratic
            sums[key] = sums.get(key, 0.0) + coeff
'''))
r("to_physical: helper resolves placeholders", LM, ('''            if isinstance(coeff_i, pyqubo.core.Coefficient):
                coeff_i = coeff_i.evaluate(feed_dict=placeholder)

            # Calculate coefficient with the placeholder
            coeff_with_ph = coeff_i * scale_i
            coeff_model = (coeff_with_ph + pyqubo.Binary("sawatabi-fake-variable")).compile()  # We need a variable for a valid model for pyqubo
            coeff_ph_resolved = coeff_model.to_qubo(feed_dict=placeholder)
            coeff = coeff_ph_resolved[1]  # We don't need the variable just prepared, extracting only offset
''', '''            if isinstance(coeff_i, pyqubo.core.Coefficient):
                coeff_i = coeff_i.evaluate(feed_dict=placeholder)

            coeff = self._resolve(coeff_i * scale_i, placeholder)
'''), ('''        offset_model = (offset + pyqubo.Binary("sawatabi-fake-variable")).compile()  # We need a variable for a valid model for pyqubo
        offset_ph_resolved = offset_model.to_qubo(feed_dict=placeholder)
        offset = offset_ph_resolved[1]  # We don't need the variable just prepared, extracting only offset
''', '''        offset = self._resolve(offset, placeholder)
'''), ('''    def merge(self, other):
''', '''    @staticmethod
    def _resolve(expression, placeholder):
        compiled = (expression + pyqubo.Binary("sawatabi-fake-variable")).compile()
        _, constant = compiled.to_qubo(feed_dict=placeholder)
        return constant

    def merge(self, other):
'''))
r("to_physical: zip over the columns", LM, ('''        for i in range(self._interactions_length):
            if self._interactions_array["removed"][i]:
                will_remove.append(self._interactions_array["name"][i])
                continue
''', '''        for i, (name, removed) in enumerate(zip(self._interactions_array["name"], self._interactions_array["removed"])):
            if removed:
                will_remove.append(name)
                continue
'''))
r("to_physical: one loop writes the physical model", LM, ('''        for k, v in linear.items():
            if v != 0.0:
                physical.add_interaction(k, body=constants.INTERACTION_LINEAR, coefficient=v)
                physical._variables_set.add(k)
        for k, v in quadratic.items():
            if v != 0.0:
                physical.add_interaction(k, body=constants.INTERACTION_QUADRATIC, coefficient=v)
                physical._variables_set.add(k[0])
                physical._variables_set.add(k[1])
        physical._offset = offset
''', '''        physical._offset = offset
        for k, v in linear.items():
            if v == 0.0:
                continue
            physical.add_interaction(k, constants.INTERACTION_LINEAR, v)
            physical._variables_set.add(k)
        for k, v in quadratic.items():
            if v == 0.0:
                continue
            physical._variables_set.update(k)
            physical.add_interaction(k, constants.INTERACTION_QUADRATIC, v)
'''))
r("to_physical: indices by comprehension", LM, ('''        current_index = 0
        for val in self._variables.values():
            flattened = list(Functions._flatten(val.bit_list))
            for v in flattened:
                if (v.label not in self._deleted) and (v.label in physical._variables_set):
                    physical._label_to_index[v.label] = current_index
                    physical._index_to_label[current_index] = v.label
                    current_index += 1
''', '''        labels = [v.label for val in self._variables.values() for v in Functions._flatten(val.bit_list)]
        used = [label for label in labels if label in physical._variables_set and label not in self._deleted]
        for current_index, label in enumerate(used):
            physical._label_to_index[label] = current_index
            physical._index_to_label[current_index] = label
'''))
r("to_physical: index is the size of the map", LM, ('''                    physical._label_to_index[v.label] = current_index
                    physical._index_to_label[current_index] = v.label
                    current_index += 1
''', '''                    current_index = len(physical._index_to_label)
                    physical._label_to_index[v.label] = current_index
                    physical._index_to_label[current_index] = v.label
'''))
r("to_physical: dirty by comprehension", LM, ('''        for i in range(self._interactions_length):
            # TODO: Calc difference from previous physical model by referencing dirty flags.
            if self._interactions_array["dirty"][i]:
                self._interactions_array["dirty"][i] = False
''', '''        self._interactions_array["dirty"] = [False] * self._interactions_length
'''))
r("to_physical: rows dropped by comprehension", LM, ('''        for rm in will_remove:
            idx = self._interactions_array["name"].index(rm)
            for k in self._interactions_array.keys():
                self._interactions_array[k].pop(idx)
            self._interactions_length -= 1
''', '''        keep = [not r for r in self._interactions_array["removed"]]
        for k in self._interactions_array.keys():
            self._interactions_array[k] = [x for x, flag in zip(self._interactions_array[k], keep) if flag]
        self._interactions_length = len(self._interactions_array["name"])
'''))
r("to_physical: rows dropped from the end", LM, ('''        for rm in will_remove:
            idx = self._interactions_array["name"].index(rm)
            for k in self._interactions_array.keys():
                self._interactions_array[k].pop(idx)
            self._interactions_length -= 1
''', '''        indices = [i for i, r in enumerate(self._interactions_array["removed"]) if r]
        for idx in reversed(indices):
            for column in self._interactions_array.values():
                del column[idx]
        self._interactions_length -= len(indices)
'''))
r("to_physical: saved in one tuple", LM, ('''        original_offset = self._offset
        original_deleted = copy.deepcopy(self._deleted)
        original_fixed = copy.deepcopy(self._fixed)
''', '''        original = (self._offset, dict(self._deleted), dict(self._fixed))
'''), ('''        self._offset = original_offset
        self._deleted = original_deleted
        self._fixed = original_fixed
''', '''        self._offset, self._deleted, self._fixed = original
'''))
r("merge: checks by any", LM, ('''        for key, value in self._variables.items():
            if key in other._variables.keys():
                if len(value.shape) != len(other._variables[key].shape):
                    raise ValueError(f"Cannot merge model since the dimension of '{key}' is different.")
''', '''        for key in self._variables:
            if key in other._variables and len(self._variables[key].shape) != len(other._variables[key].shape):
                raise ValueError(f"Cannot merge model since the dimension of '{key}' is different.")
'''), ('''        if len(set(self._constraints.keys()) & set(other._constraints.keys())) > 0:
''', '''        if set(self._constraints) & set(other._constraints):
'''))
r("merge: constraint clash by any", LM, ('''        if len(set(self._constraints.keys()) & set(other._constraints.keys())) > 0:
''', '''        if any(label in other._constraints for label in self._constraints):
'''))
r("merge: rename by comprehension", LM, ('''        for idx, name in enumerate(merged_interactions_with_duplication["name"]):
            if name in duplicate_names:
                if idx < self._interactions_length:
                    model_id = id(self)
                else:
                    model_id = id(other)
                merged_interactions_with_duplication["name"][idx] = f"{name} ({model_id})"
''', '''        for idx, name in enumerate(merged_interactions_with_duplication["name"]):
            if name not in duplicate_names:
                continue
            owner = self if idx < self._interactions_length else other
            merged_interactions_with_duplication["name"][idx] = f"{name} ({id(owner)})"
'''))
r("merge: columns in one comprehension", LM, ('''        merged_interactions_with_duplication = {k: [] for k in self._default_keys}
        merged_attrs = list(set(self._interactions_attrs) | set(other._interactions_attrs))
        for k in self._default_keys:
            merged_interactions_with_duplication[k] = self._interactions_array[k] + other._interactions_array[k]
''', '''        merged_attrs = list(set(self._interactions_attrs) | set(other._interactions_attrs))
        merged_interactions_with_duplication = {k: self._interactions_array[k] + other._interactions_array[k] for k in self._default_keys}
'''))
r("merge: attribute columns with defaults", LM, ('''            if (attr in self._interactions_attrs) and (attr in other._interactions_array):
                merged_interactions_with_duplication[attr] = self._interactions_array[attr] + other._interactions_array[attr]
            elif attr in self._interactions_attrs:
                merged_interactions_with_duplication[attr] = self._interactions_array[attr] + ([np.nan] * other._interactions_length)
            elif attr in other._interactions_attrs:
                merged_interactions_with_duplication[attr] = ([np.nan] * self._interactions_length) + other._interactions_array[attr]
''', '''            mine = self._interactions_array[attr] if attr in self._interactions_attrs else [np.nan] * self._interactions_length
            theirs = other._interactions_array[attr] if attr in other._interactions_attrs else [np.nan] * other._interactions_length
            merged_interactions_with_duplication[attr] = mine + theirs
'''))
r("merge: order of the last fields", LM, ('''        # Merge constraints
        self._constraints.update(other._constraints)

        # Merge other fields
        self._offset += other._offset
        self._deleted.update(other._deleted)
        self._fixed.update(other._fixed)
''', '''        self._offset = self._offset + other._offset
        for mine, theirs in ((self._constraints, other._constraints), (self._deleted, other._deleted), (self._fixed, other._fixed)):
            mine.update(theirs)
'''))
r("merge: helpers", LM, ('''        # Merge variables
        for key, value in other._variables.items():
            if key not in self._variables:
                self._variables[key] = value
            else:
                shape_current = self._variables[key].shape
                shape_max = Functions.elementwise_max(value.shape, shape_current)
                shape_diff = Functions.elementwise_sub(shape_max, shape_current)
                self.append(name=key, shape=shape_diff)
''', '''        self._merge_variables(other)
'''), ('''    def _convert_mtype(self):
''', '''    def _merge_variables(self, other):
        for key, value in other._variables.items():
            if key in self._variables:
                current = self._variables[key].shape
                largest = Functions.elementwise_max(value.shape, current)
                self.append(key, Functions.elementwise_sub(largest, current))
            else:
                self._variables[key] = value

    def _convert_mtype(self):
'''))
r("to_ising: early return", LM, ('''        if self._mtype != constants.MODEL_ISING:
            self._mtype = constants.MODEL_ISING

            # Update variables from Spin to Binary
            self._update_variables_type()

            # Update h_{i}
            h_df = self.select_interaction(query="(body == 1) and (removed == False)")
            for index, h in h_df.iterrows():
                coeff = h["coefficient"]
                self.update_interaction(name=h["name"], coefficient=coeff * 0.5)
                self._offset += coeff * h["scale"] * 0.5
''', '''        if self._mtype != constants.MODEL_ISING:
            self._mtype = constants.MODEL_ISING

            # Update variables from Spin to Binary
            self._update_variables_type()

            # Update h_{i}
            h_df = self.select_interaction(query="(body == 1) and (removed == False)")
            for _, h in h_df.iterrows():
                half = h["coefficient"] / 2
                self._offset += half * h["scale"]
                self.update_interaction(name=h["name"], coefficient=half)
'''))
r("to_qubo: loop over both ends", LM, ('''                self.add_interaction(
                    target=J["interacts"][0],
                    name=f"{J['key_0']} from {J['name']} (mtype additional {current_time()})",
                    coefficient=-coeff * 2.0,
                    scale=J["scale"],
                )
                self.add_interaction(
                    target=J["interacts"][1],
                    name=f"{J['key_1']} from {J['name']} (mtype additional {current_time()})",
                    coefficient=-coeff * 2.0,
                    scale=J["scale"],
                )
''', '''                for position in range(2):
                    self.add_interaction(
                        target=J["interacts"][position],
                        name=f"{J['key_' + str(position)]} from {J['name']} (mtype additional {current_time()})",
                        coefficient=-2.0 * coeff,
                        scale=J["scale"],
                    )
'''))
r("to_qubo: helper for the linear parts", LM, ('''                self.add_interaction(
                    target=J["interacts"][0],
                    name=f"{J['key_0']} from {J['name']} (mtype additional {current_time()})",
                    coefficient=-coeff * 2.0,
                    scale=J["scale"],
                )
                self.add_interaction(
                    target=J["interacts"][1],
                    name=f"{J['key_1']} from {J['name']} (mtype additional {current_time()})",
                    coefficient=-coeff * 2.0,
                    scale=J["scale"],
                )
''', '''                self._add_part(J, 0, "key_0", -2.0 * coeff)
                self._add_part(J, 1, "key_1", -2.0 * coeff)
'''), ('''    ################################
    # Getters
''', '''    def _add_part(self, J, position, key, coefficient):
        name = f"{J[key]} from {J['name']} (mtype additional {current_time()})"
        self.add_interaction(target=J["interacts"][position], name=name, coefficient=coefficient, scale=J["scale"])

    ################################
    # Getters
'''))
r("update_variables_type: class by type", LM, ('''            interacts = interaction["interacts"]
            if self._mtype == constants.MODEL_ISING:
                if isinstance(interacts, tuple):
                    self._interactions_array["interacts"][index] = (
                        pyqubo.Spin(interaction["interacts"][0].label),
                        pyqubo.Spin(interaction["interacts"][1].label),
                    )
                else:
                    self._interactions_array["interacts"][index] = pyqubo.Spin(interaction["interacts"].label)
            elif self._mtype == constants.MODEL_QUBO:
                if isinstance(interacts, tuple):
                    self._interactions_array["interacts"][index] = (
                        pyqubo.Binary(interaction["interacts"][0].label),
                        pyqubo.Binary(interaction["interacts"][1].label),
                    )
                else:
                    self._interactions_array["interacts"][index] = pyqubo.Binary(interaction["interacts"].label)
''', '''            interacts = interaction["interacts"]
            variable_class = pyqubo.Spin if self._mtype == constants.MODEL_ISING else pyqubo.Binary
            if isinstance(interacts, tuple):
                converted = tuple(variable_class(v.label) for v in interacts)
            else:
                converted = variable_class(interacts.label)
            self._interactions_array["interacts"][index] = converted
'''))
r("sizes: sum and comprehension", LM, ('''        all_size = 0
        for _, variables in self.get_variables().items():
            size = 1
            for s in variables.shape:
                size *= s
            all_size += size
        return all_size
''', '''        return sum(self._array_size(v) for v in self._variables.values())

    @staticmethod
    def _array_size(array):
        size = 1
        for s in array.shape:
            size = size * s
        return size
'''), ('''        return self.get_all_size() - self.get_deleted_size() - self.get_fixed_size()
''', '''        return self.get_all_size() - (len(self._deleted) + len(self._fixed))
'''), ('''        return list(self._deleted.keys())
''', '''        return list(self._deleted)
'''), ('''        return list(self._fixed.keys())
''', '''        return [label for label in self._fixed]
'''))
r("sizes: np.prod", LM, ('''            size = 1
            for s in variables.shape:
                size *= s
            all_size += size
''', '''            all_size += int(np.prod(variables.shape))
'''))
r("attributes: comprehension", LM, ('''        res = {}
        for attr in self._interactions_attrs:
            res[attr] = self._interactions_array[attr][idx]
        return res
''', '''        return {attr: self._interactions_array[attr][idx] for attr in self._interactions_attrs}
'''), ('''        attributes = self.get_attributes(target, name)
        return attributes[key]
''', '''        return self.get_attributes(target=target, name=name)[key]
'''))
r("eq: early returns", LM, ('''        return (
            isinstance(other, LogicalModel)
            and (self._mtype == other._mtype)
            and (self._variables == other._variables)
            and''', '''        if not isinstance(other, LogicalModel):
            return False
        return (
            (self._variables == other._variables)
            and (self._mtype == other._mtype)
            and'''))
r("eq: loop over the attribute names", LM, ('''        return (
            isinstance(other, LogicalModel)
            and (self._mtype == other._mtype)
            and (self._variables == other._variables)
            and (self._interactions_array == other._interactions_array)
            and (self._interactions_attrs == other._interactions_attrs)
            and (self._interactions_length == other._interactions_length)
            and (self._constraints == other._constraints)
            and (self._deleted == other._deleted)
            and (self._fixed == other._fixed)
            and (self._offset == other._offset)
        )
''', '''        if not isinstance(other, LogicalModel):
            return False
        names = ["_mtype", "_variables", "_interactions_array", "_interactions_attrs", "_interactions_length", "_constraints", "_deleted", "_fixed", "_offset"]
        return all(getattr(self, n) == getattr(other, n) for n in names)
'''), ('''        return not self.__eq__(other)
''', '''        return not (self == other)
'''))
r("default keys as a constant", LM, ('''        self._default_keys = ["body", "name", "key", "key_0", "key_1", "interacts", "coefficient", "scale", "timestamp", "dirty", "removed"]
        self._interactions_array = {k: [] for k in self._default_keys}
''', '''        self._default_keys = list(DEFAULT_KEYS)
        self._interactions_array = {}
        for k in self._default_keys:
            self._interactions_array[k] = []
'''), ('''class LogicalModel(AbstractModel):
''', '''DEFAULT_KEYS = ("body", "name", "key", "key_0", "key_1", "interacts", "coefficient", "scale", "timestamp", "dirty", "removed")


class LogicalModel(AbstractModel):
'''))

# ---------------------------------------------------------------- physical model
r("to_bqm: comprehensions", PM, ('''        linear, quadratic = {}, {}
        for k, v in self._raw_interactions[constants.INTERACTION_LINEAR].items():
            linear[k] = sign * v
        for k, v in self._raw_interactions[constants.INTERACTION_QUADRATIC].items():
            quadratic[k] = sign * v

        if self.get_mtype() == constants.MODEL_ISING:
            vartype = dimod.SPIN
        elif self.get_mtype() == constants.MODEL_QUBO:
            vartype = dimod.BINARY
        bqm = dimod.BinaryQuadraticModel(linear, quadratic, self._offset, vartype)

        return bqm
''', '''        vartype = dimod.SPIN if self._mtype == constants.MODEL_ISING else dimod.BINARY
        linear = {k: v * sign for k, v in self._raw_interactions[constants.INTERACTION_LINEAR].items()}
        quadratic = {k: v * sign for k, v in self._raw_interactions[constants.INTERACTION_QUADRATIC].items()}
        return dimod.BinaryQuadraticModel(linear, quadratic, self._offset, vartype)
'''))
r("to_bqm: helper", PM, ('''        linear, quadratic = {}, {}
        for k, v in self._raw_interactions[constants.INTERACTION_LINEAR].items():
            linear[k] = sign * v
        for k, v in self._raw_interactions[constants.INTERACTION_QUADRATIC].items():
            quadratic[k] = sign * v
''', '''        linear = self._signed(constants.INTERACTION_LINEAR, sign)
        quadratic = self._signed(constants.INTERACTION_QUADRATIC, sign)
'''), ('''    def to_polynomial(self):
''', '''    def _signed(self, body, sign):
        result = {}
        for label in self._raw_interactions[body]:
            result[label] = sign * self._raw_interactions[body][label]
        return result

    def to_polynomial(self):
'''))
r("to_polynomial: comprehensions", PM, ('''        polynomial = []
        for k, v in self._raw_interactions[constants.INTERACTION_LINEAR].items():
            index = self._label_to_index[k]
            polynomial.append([index, index, -1.0 * v])
        for k, v in self._raw_interactions[constants.INTERACTION_QUADRATIC].items():
            index = [self._label_to_index[k[0]], self._label_to_index[k[1]]]
            polynomial.append([index[0], index[1], -1.0 * v])

        return polynomial
''', '''        to_index = self._label_to_index
        linear = [[to_index[k], to_index[k], -v] for k, v in self._raw_interactions[constants.INTERACTION_LINEAR].items()]
        quadratic = [[to_index[i], to_index[j], -v] for (i, j), v in self._raw_interactions[constants.INTERACTION_QUADRATIC].items()]
        return linear + quadratic
'''))
r("physical: setdefault", PM, ('''        self._raw_interactions[body][name] = coefficient
''', '''        interactions = self._raw_interactions[body]
        interactions[name] = coefficient
'''))

# ---------------------------------------------------------------- constraints
r("n-hot: combinations", NH, ('''        for var in self._variables:
            coeff = -1.0 * self._strength * (1 - 2 * self._n)
            model.add_interaction(var, name=f"{var.label} ({self._label})", coefficient=coeff)
            for adj in self._variables:
                if var.label < adj.label:
                    coeff = -2.0 * self._strength
                    model.add_interaction((var, adj), name=f"{var.label}*{adj.label} ({self._label})", coefficient=coeff)
''', '''        linear = self._strength * (2 * self._n - 1)
        quadratic = -2.0 * self._strength
        for var in self._variables:
            model.add_interaction(var, name=f"{var.label} ({self._label})", coefficient=linear)
        for var in self._variables:
            for adj in self._variables:
                if not var.label < adj.label:
                    continue
                model.add_interaction((var, adj), name=f"{var.label}*{adj.label} ({self._label})", coefficient=quadratic)
'''))
r("n-hot: itertools", NH, ('''            for adj in self._variables:
                if var.label < adj.label:
                    coeff = -2.0 * self._strength
                    model.add_interaction((var, adj), name=f"{var.label}*{adj.label} ({self._label})", coefficient=coeff)
''', '''
        for var, adj in itertools.combinations(sorted(self._variables, key=lambda v: v.label), 2):
            model.add_interaction((var, adj), name=f"{var.label}*{adj.label} ({self._label})", coefficient=-2.0 * self._strength)
'''), ("import sawatabi\n", "import itertools\n\nimport sawatabi\n"))
r("n-hot: sorted list with slices", NH, ('''        for var in self._variables:
            coeff = -1.0 * self._strength * (1 - 2 * self._n)
            model.add_interaction(var, name=f"{var.label} ({self._label})", coefficient=coeff)
            for adj in self._variables:
                if var.label < adj.label:
                    coeff = -2.0 * self._strength
                    model''', '''        ordered = sorted(self._variables, key=lambda v: v.label)
        for i, var in enumerate(ordered):
            coeff = -1.0 * self._strength * (1 - 2 * self._n)
            model.add_interaction(var, name=f"{var.label} ({self._label})", coefficient=coeff)
            for adj in ordered[i + 1:]:
                    coeff = -2.0 * self._strength
                    model'''))
r("n-hot: init order", NH, ('''        # Avoid duplicate variable, so we use set() for variables
        if variables is None:
            self._variables = set()
        else:
            self._variables = self._check_variables_and_to_set(variables)

        self._check_argument_type("n", n, int)
        if n <= 0:
            raise ValueError("'n' must be a positive integer.")
        self._n = n
''', '''        self._check_argument_type("n", n, int)
        if n < 1:
            raise ValueError("'n' must be a positive integer.")
        self._n = n
        self._variables = set() if variables is None else self._check_variables_and_to_set(variables)
'''))
r("n-hot: set operators", NH, ('''        self._variables = self._variables.union(variables_set)
''', '''        self._variables = self._variables | variables_set
'''), ('''        for v in variables_set:
            if v not in self._variables:
                raise ValueError(f"Variable '{v}' does not exist in the constraint variables.")
        self._variables = self._variables.difference(variables_set)
''', '''        missing = variables_set - self._variables
        if missing:
            raise ValueError(f"Variable '{missing.pop()}' does not exist in the constraint variables.")
        self._variables = self._variables - variables_set
'''))
r("n-hot: in-place update of its own set", NH, ('''        self._variables = self._variables.union(variables_set)
''', '''        self._variables |= variables_set
'''), ('''        self._variables = self._variables.difference(variables_set)
''', '''        self._variables -= variables_set
'''))
r("equality: helper", EQ, ('''        for var in self._variables_1:
            for adj in self._variables_1:
                if var.label < adj.label:
                    coeff = -2.0 * self._strength
                    model.add_interaction((var, adj), name=f"{var.label}*{adj.label} ({self._label})", coefficient=coeff)
        for var in self._variables_2:
            for adj in self._variables_2:
                if var.label < adj.label:
                    coeff = -2.0 * self._strength
                    model.add_interaction((var, adj), name=f"{var.label}*{adj.label} ({self._label})", coefficient=coeff)
''', '''        for variables in (self._variables_1, self._variables_2):
            self._add_pairs(model, variables)
'''), ('''    ################################
    # Built-in functions
''', '''    def _add_pairs(self, model, variables):
        for var in variables:
            for adj in variables:
                if var.label < adj.label:
                    model.add_interaction((var, adj), name=f"{var.label}*{adj.label} ({self._label})", coefficient=-2.0 * self._strength)

    ################################
    # Built-in functions
'''))
r("equality: order of the blocks", EQ, ('''        for var in self._variables_1.union(self._variables_2):
            coeff = -1.0 * self._strength
            model.add_interaction(var, name=f"{var.label} ({self._label})", coefficient=coeff)
''', ''), ('''                coeff = 2.0 * self._strength
                model.add_interaction((var, adj), name=f"{var.label}*{adj.label} ({self._label})", coefficient=coeff)

        return model
''', '''                coeff = 2.0 * self._strength
                model.add_interaction((var, adj), name=f"{var.label}*{adj.label} ({self._label})", coefficient=coeff)
        for var in self._variables_1 | self._variables_2:
            model.add_interaction(var, name=f"{var.label} ({self._label})", coefficient=-self._strength)

        return model
'''))
r("zero-or-one: skip", ZO, ('''                if var.label < adj.label:
                    coeff = -2.0 * self._strength
                    model.add_interaction((var, adj), name=f"{var.label}*{adj.label} ({self._label})", coefficient=coeff)
''', '''                if adj.label <= var.label:
                    continue
                pair_name = "{}*{} ({})".format(var.label, adj.label, self._label)
                model.add_interaction((var, adj), name=pair_name, coefficient=-2 * self._strength)
'''))
r("zero-or-one: mirrored", ZO, ('''                if var.label < adj.label:
                    coeff = -2.0 * self._strength
                    model.add_interaction((var, adj), name=f"{var.label}*{adj.label} ({self._label})", coefficient=coeff)
''', '''                if adj.label > var.label:
                    coeff = -2.0 * self._strength
                    model.add_interaction((var, adj), name=f"{var.label}*{adj.label} ({self._label})", coefficient=coeff)
'''))
r("constraint: to set with returns", AC, ('''        if isinstance(variables, (list, set)):
            self._check_argument_type_in_list("variables", variables, (pyqubo.Spin, pyqubo.Binary))
        if isinstance(variables, pyqubo.Array):
            variables = list(Functions._flatten(variables.bit_list))
        elif isinstance(variables, (pyqubo.Spin, pyqubo.Binary)):
            variables = [variables]
        return set(variables)
''', '''        if isinstance(variables, pyqubo.Array):
            return set(Functions._flatten(variables.bit_list))
        if isinstance(variables, (pyqubo.Spin, pyqubo.Binary)):
            return {variables}
        self._check_argument_type_in_list("variables", variables, (pyqubo.Spin, pyqubo.Binary))
        return set(variables)
'''), ('''        if label == "":
            raise ValueError("'label' must not be empty.")
''', '''        if not label:
            raise ValueError("'label' must not be empty.")
'''))
r("mixin: any", BM, ('''        for v in values:
            is_ok = False
            for at in atype:
                if isinstance(v, at):
                    is_ok = True
            if not is_ok:
                atypestr = [at.__name__ for at in atype]
                raise TypeError(f"All elements in tuple '{name}' must be one of {atypestr}.")
''', '''        for v in values:
            if not any(isinstance(v, at) for at in atype):
                atypestr = [at.__name__ for at in atype]
                raise TypeError(f"All elements in tuple '{name}' must be one of {atypestr}.")
'''))

# ---------------------------------------------------------------- solvers
r("annealer: helper for the empty check", SS, ('''        if len(model._raw_interactions[constants.INTERACTION_LINEAR]) == 0 and len(model._raw_interactions[constants.INTERACTION_QUADRATIC]) == 0:
            raise ValueError("Model cannot be empty.")

        if initial_states and''', '''        if not any(model._raw_interactions[body] for body in (constants.INTERACTION_LINEAR, constants.INTERACTION_QUADRATIC)):
            raise ValueError("Model cannot be empty.")

        if initial_states and'''))
r("annealer: checks in another order", SS, ('''        if initial_states and (len(initial_states) != num_reads):
            raise ValueError("Length of initial_states must be the same as num_reads.")

        allowed_pickup_mode = [constants.PICKUP_MODE_RANDOM, constants.PICKUP_MODE_SEQUENTIAL]
        if pickup_mode not in allowed_pickup_mode:
            raise ValueError(f"pickup_mode must be one of {allowed_pickup_mode}")
''', '''        allowed_pickup_mode = [constants.PICKUP_MODE_RANDOM, constants.PICKUP_MODE_SEQUENTIAL]
        if pickup_mode not in allowed_pickup_mode:
            raise ValueError(f"pickup_mode must be one of {allowed_pickup_mode}")

        if initial_states and (len(initial_states) != num_reads):
            raise ValueError("Length of initial_states must be the same as num_reads.")
'''))
r("annealer: option loop", SS, ('''            if "reverse_period" not in reverse_options:
                raise ValueError("reverse_options must contain 'reverse_period'")
            if "reverse_temperature" not in reverse_options:
                raise ValueError("reverse_options must contain 'reverse_temperature'")
''', '''            for option in ("reverse_period", "reverse_temperature"):
                if option not in reverse_options:
                    raise ValueError(f"reverse_options must contain '{option}'")
'''))
r("annealer: rng directly", SS, ('''        if seed is not None:
            self._rng = np.random.default_rng(seed)
        else:
            self._rng = np.random.default_rng()
''', '''        self._rng = np.random.default_rng(seed)
'''))
r("annealer: prepare helper", SS, ('''        self._bqm_linear = [0.0 for _ in range(self._bqm.num_variables)]
        for label, coeff in self._bqm.linear.items():
            index = self._model._label_to_index[label]
            self._bqm_linear[index] = coeff
        self._bqm_adj = [{} for _ in range(self._bqm.num_variables)]
''', '''        self._bqm_linear = [0.0] * self._bqm.num_variables
        for label, coeff in self._bqm.linear.items():
            self._bqm_linear[model._label_to_index[label]] = coeff
        self._bqm_adj = [{} for _ in range(self._bqm.num_variables)]
'''))
r("annealer: adjacency comprehension", SS, ('''            adj_dict = {}
''', '''            to_index = self._model._label_to_index
            adj_dict = {}
'''))
r("annealer: accept in one expression", SS, ('''        if diff <= 0.0:
            return True
        p = math.exp(-diff / temperature)  # Note: np.exp is slow here
        self._accept_randoms_idx += 1
        if self._accept_randoms[self._accept_randoms_idx] < p:
            return True
        return False
''', '''        if diff <= 0.0:
            return True
        self._accept_randoms_idx += 1
        return self._accept_randoms[self._accept_randoms_idx] < math.exp(-diff / temperature)
'''))
r("annealer: diff factored", SS, ('''        # h_{i}
        diff = x[idx] * self._bqm_linear[idx]

        # J_{ij}
        for aidx, j in self._bqm_adj[idx].items():
            diff += x[idx] * x[aidx] * j

        # Now the calculated diff is the local energy at x[idx].
        # If the spin flips from -1 to +1 (vice versa), the diff energy will be double.
        return 2.0 * diff
''', '''        field = self._bqm_linear[idx]
        for aidx, j in self._bqm_adj[idx].items():
            field += x[aidx] * j
        return 2.0 * x[idx] * field
'''))
r("annealer: diff by sum", SS, ('''        diff = x[idx] * self._bqm_linear[idx]

        # J_{ij}
        for aidx, j in self._bqm_adj[idx].items():
            diff += x[idx] * x[aidx] * j
''', '''        diff = x[idx] * self._bqm_linear[idx] + sum(x[idx] * x[aidx] * j for aidx, j in self._bqm_adj[idx].items())
'''))
r("annealer: loop over pickups directly", SS, ('''            for inner, idx in enumerate(pickups):  # inner loop
''', '''            for idx in pickups:  # inner loop
'''), ('''                    x[idx] *= -1
                    energy += diff
                    acceptances += 1
''', '''                    acceptances += 1
                    energy = energy + diff
                    x[idx] = -x[idx]
'''))
r("annealer: initial state helper", SS, ('''        num_variables = self._bqm.num_variables
        if initial_state is None:
            x = ((self._rng.integers(2, size=num_variables) - 0.5) * 2).astype(int)  # -1 or +1
        else:
            x = np.ones(shape=(num_variables), dtype=int)
            for v in self._bqm.variables:
                idx = self._model._label_to_index[v]
                x[idx] = initial_state[v]
''', '''        num_variables = self._bqm.num_variables
        x = self._initial_spins(initial_state, num_variables)
'''), ('''    def calc_energy_diff(self, idx, x):
''', '''    def _initial_spins(self, initial_state, num_variables):
        if initial_state is None:
            return ((self._rng.integers(2, size=num_variables) - 0.5) * 2).astype(int)  # -1 or +1
        spins = np.ones(shape=(num_variables), dtype=int)
        for v in self._bqm.variables:
            spins[self._model._label_to_index[v]] = initial_state[v]
        return spins

    def calc_energy_diff(self, idx, x):
'''))
r("annealer: cooling written out", SS, ('''                temperature *= cooling_rate
''', '''                temperature = temperature * cooling_rate
'''), ('''            if reversing_phase and (reverse_options["reverse_period"] <= sweep):
                reversing_phase = False
''', '''            if reversing_phase:
                reversing_phase = sweep < reverse_options["reverse_period"]
'''))
r("annealer: pickups by helper", SS, ('''            if pickup_mode == constants.PICKUP_MODE_RANDOM:
                pickups = self._rng.permutation(num_variables)
            # Pick up a spin (variable) sequentially
            elif pickup_mode == constants.PICKUP_MODE_SEQUENTIAL:
                pickups = np.arange(num_variables)
''', '''            pickups = self._rng.permutation(num_variables) if pickup_mode == constants.PICKUP_MODE_RANDOM else np.arange(num_variables)
'''))
r("annealer: states converted by loop", SS, ('''                initial_states = [{k: (-1 if v == 0 else v) for k, v in initial_state.items()} for initial_state in initial_states]
''', '''                converted = []
                for initial_state in initial_states:
                    converted.append({k: (-1 if v == 0 else v) for k, v in initial_state.items()})
                initial_states = converted
'''))
r("annealer: read state inline", SS, ('''            initial_state_for_this_read = None
            if initial_states:
                initial_state_for_this_read = initial_states[r]
''', '''            initial_state_for_this_read = initial_states[r] if initial_states else None
'''))
r("annealer: stats from locals", SS, ('''        if not need_stats:
            return sampleset
        return sampleset, stats
''', '''        if need_stats:
            return (sampleset, stats)
        return sampleset
'''))
r("optigan: comprehension of samples", OS, ('''        samples = []
        for spins in result["spins"]:
            sample = dict(zip(list(model._index_to_label.values()), spins))
            samples.append(sample)
''', '''        labels = list(model._index_to_label.values())
        samples = [dict(zip(labels, spins)) for spins in result["spins"]]
'''))
r("optigan: labels by index", OS, ('''            sample = dict(zip(list(model._index_to_label.values()), spins))
            samples.append(sample)
''', '''            samples.append({label: spin for label, spin in zip(model._index_to_label.values(), spins)})
'''))
r("optigan: energies by loop", OS, ('''        energies = [energy + model.get_offset() for energy in result["energies"]]
''', '''        offset = model._offset
        energies = []
        for energy in result["energies"]:
            energies.append(offset + energy)
'''))
r("optigan: request helper", OS, ('''        if gzip_request:
            # Compress request body
            buf = io.BytesIO()
            with gzip.GzipFile(fileobj=buf, mode="wb") as f:
                f.write(json.dumps(payload).encode("utf-8"))
            headers["Content-Encoding"] = "gzip"
            response = requests.post(endpoint, headers=headers, data=buf.getvalue())
        else:
            # Don't compress request body
            headers["Content-Type"] = "application/json; charset=UTF-8"
            response = requests.post(endpoint, headers=headers, json=payload)

        if response''', '''        response = self._send(endpoint, headers, payload, gzip_request)

        if response'''), ('''    def solve(self, model,''', '''    @staticmethod
    def _send(endpoint, headers, payload, gzip_request):
        if not gzip_request:
            headers["Content-Type"] = "application/json; charset=UTF-8"
            return requests.post(endpoint, headers=headers, json=payload)
        buf = io.BytesIO()
        with gzip.GzipFile(fileobj=buf, mode="wb") as f:
            f.write(json.dumps(payload).encode("utf-8"))
        headers["Content-Encoding"] = "gzip"
        return requests.post(endpoint, headers=headers, data=buf.getvalue())

    def solve(self, model,'''))
r("optigan: credentials helper", OS, ('''        if self._endpoint and self._token:
            endpoint = self._endpoint
            token = self._token
        elif self._config_filename:
            config = self.get_config()
            endpoint = config["api"]["endpoint"]
            token = config["api"]["token"]

        headers = {
            "Authorization": "Bearer {}".format(token),''', '''        if self._endpoint and self._token:
            endpoint, token = self._endpoint, self._token
        elif self._config_filename:
            api = self.get_config()["api"]
            endpoint, token = api["endpoint"], api["token"]

        headers = {
            "Authorization": f"Bearer {token}",'''))
r("optigan: init", OS, ('''        home_dir = os.path.expanduser("~")
        home_config_filename = f"{home_dir}/.optigan.yml"
        self._config_filename = None
        if config:
            self._config_filename = config
        elif os.path.exists(home_config_filename):
            self._config_filename = home_config_filename
        self._endpoint = endpoint
        self._token = token
''', '''        self._endpoint = endpoint
        self._token = token
        home_config_filename = os.path.expanduser("~") + "/.optigan.yml"
        if config:
            self._config_filename = config
        elif os.path.exists(home_config_filename):
            self._config_filename = home_config_filename
        else:
            self._config_filename = None
'''))
r("local: options chosen first", LS, ('''        if self._exact:
            # dimod's brute force solver
            sampleset = self._solver.sample(bqm)
        else:
            # Simulated annealing (SA)
            sampleset = self._solver.sample(bqm, **kwargs)
''', '''        options = {} if self._exact else kwargs
        sampleset = self._solver.sample(bqm, **options)
'''))
r("local: check helper", LS, ('''    def solve(self, model, **kwargs):
        self._check_argument_type("model", model, PhysicalModel)

        if len(model._raw_interactions[constants.INTERACTION_LINEAR]) == 0 and len(model._raw_interactions[constants.INTERACTION_QUADRATIC]) == 0:
            raise ValueError("Model cannot be empty.")
''', '''    def _check_model(self, model):
        self._check_argument_type("model", model, PhysicalModel)
        interactions = model._raw_interactions
        if not interactions[constants.INTERACTION_LINEAR] and not interactions[constants.INTERACTION_QUADRATIC]:
            raise ValueError("Model cannot be empty.")

    def solve(self, model, **kwargs):
        self._check_model(model)
'''), ('''    def default_beta_range(self, model):
        self._check_argument_type("model", model, PhysicalModel)

        if len(model._raw_interactions[constants.INTERACTION_LINEAR]) == 0 and len(model._raw_interactions[constants.INTERACTION_QUADRATIC]) == 0:
            raise ValueError("Model cannot be empty.")

        return neal.default_beta_range(model.to_bqm())
''', '''    def default_beta_range(self, model):
        self._check_model(model)
        bqm = model.to_bqm()
        return neal.default_beta_range(bqm)
'''))
r("dwave: composite built inline", DS, ('''        self._composite = self._create_composite(embedding_parameters)

    def _create_composite(self, embedding_parameters=None):
        if (self._endpoint is not None) and (self._token is not None):
            sampler = DWaveSampler(endpoint=self._endpoint, token=self._token, solver=self._solver)
        else:
            sampler = DWaveSampler(solver=self._solver)

        if (embedding_parameters is not None) and isinstance(embedding_parameters, dict):
            solver = EmbeddingComposite(sampler, embedding_parameters=embedding_parameters)
        else:
            solver = EmbeddingComposite(sampler)

        return solver
''', '''        self._composite = self._create_composite(embedding_parameters)

    def _create_sampler(self):
        if self._endpoint is None or self._token is None:
            return DWaveSampler(solver=self._solver)
        return DWaveSampler(endpoint=self._endpoint, token=self._token, solver=self._solver)

    def _create_composite(self, embedding_parameters=None):
        sampler = self._create_sampler()
        if isinstance(embedding_parameters, dict):
            return EmbeddingComposite(sampler, embedding_parameters=embedding_parameters)
        return EmbeddingComposite(sampler)
'''), ('''        sampleset = self._composite.sample(bqm, **kwargs)

        return sampleset
''', '''        return self._composite.sample(bqm, **kwargs)
'''))
r("dwave: attribute renamed", DS, ('''        self._composite = self._create_composite(embedding_parameters)
''', '''        self._sampler = self._create_composite(embedding_parameters)
'''), ('''        sampleset = self._composite.sample(bqm, **kwargs)
''', '''        sampleset = self._sampler.sample(bqm, **kwargs)
'''))

# ---------------------------------------------------------------- streaming
r("process: previous values by helper", AA, ('''            # Extract the previous timestamp, elements, and model from state
            if len(timestamp_state_as_list) == 0:
                prev_timestamp = beam.utils.timestamp.MIN_TIMESTAMP
            else:
                prev_timestamp = timestamp_state_as_list[-1]
            if len(elements_state_as_list) == 0:
                prev_elements = []
            else:
                prev_elements = elements_state_as_list[-1]
''', '''            prev_timestamp = timestamp_state_as_list[-1] if timestamp_state_as_list else beam.utils.timestamp.MIN_TIMESTAMP
            prev_elements = elements_state_as_list[-1] if elements_state_as_list else []
'''))
r("process: latest helper", AA, ('''            if len(sampleset_state_as_list) == 0:
                prev_sampleset = None
            else:
                prev_sampleset = sampleset_state_as_list[-1]
''', '''            def latest(values, default):
                return values[-1] if len(values) > 0 else default

            prev_sampleset = latest(sampleset_state_as_list, None)
'''))
r("process: incremental by concatenation", AA, ('''                sorted_elements.extend(prev_elements)
                sorted_elements = sorted(sorted_elements)
            # Partial''', '''                sorted_elements = sorted(sorted_elements + prev_elements)
            # Partial'''), ('''                sorted_elements = filtered + sorted_elements
                sorted_elements = sorted(sorted_elements)
''', '''                sorted_elements = sorted(filtered + sorted_elements)
'''))
r("process: filter in the comprehension", AA, ('''                filtered = [e for e in filter(filter_fn, prev_elements) if e not in sorted_elements]
''', '''                filtered = [e for e in prev_elements if filter_fn(e) and e not in sorted_elements]
'''))
r("process: incoming by comprehension", AA, ('''                incoming = []
                if len(prev_elements) == 0:
                    incoming = sorted_elements
                else:
                    for v in reversed(sorted_elements):
                        if v[0] <= prev_elements[-1][0]:
                            break
                        incoming.insert(0, v)
                return incoming
''', '''                if len(prev_elements) == 0:
                    return sorted_elements
                return [v for v in sorted_elements if v[0] > prev_elements[-1][0]]
'''))
r("process: incoming appended and reversed", AA, ('''                incoming = []
                if len(prev_elements) == 0:
                    incoming = sorted_elements
                else:
                    for v in reversed(sorted_elements):
                        if v[0] <= prev_elements[-1][0]:
                            break
                        incoming.insert(0, v)
                return incoming
''', '''                if not prev_elements:
                    return sorted_elements
                newest = prev_elements[-1][0]
                incoming = []
                for v in reversed(sorted_elements):
                    if v[0] <= newest:
                        break
                    incoming.append(v)
                incoming.reverse()
                return incoming
'''))
r("process: incoming before outgoing", AA, ('''            # Resolve outgoing elements in this iteration
            def resolve_outgoing(prev_elements, sorted_elements):
                return [p for p in prev_elements if p not in sorted_elements]

            outgoing = resolve_outgoing(prev_elements, sorted_elements)
''', ''), ('''            incoming = resolve_incoming(prev_elements, sorted_elements)
''', '''            incoming = resolve_incoming(prev_elements, sorted_elements)
            outgoing = []
            for p in prev_elements:
                if p not in sorted_elements:
                    outgoing.append(p)
'''))
r("process: state helper", AA, ('''            timestamp_state.clear()
            timestamp_state.add(timestamp)
            elements_state.clear()
            elements_state.add(sorted_elements)
''', '''            def replace(state, value):
                state.clear()
                state.add(value)

            replace(elements_state, sorted_elements)
            replace(timestamp_state, timestamp)
'''))
r("process: attenuation helper", AA, ('''                ref_timestamp = model._interactions_array[algorithm_options["attenuation.key"]]
                min_ts = min(ref_timestamp)
                max_ts = max(ref_timestamp)
                min_scale = algorithm_options["attenuation.min_scale"]
                if min_ts < max_ts:
                    for i, t in enumerate(ref_timestamp):
                        new_scale = (1.0 - min_scale) / (max_ts - min_ts) * (t - min_ts) + min_scale
                        model._interactions_array["scale"][i] = new_scale
''', '''                ref_timestamp = model._interactions_array[algorithm_options["attenuation.key"]]
                min_scale = algorithm_options["attenuation.min_scale"]
                oldest, newest = min(ref_timestamp), max(ref_timestamp)
                if oldest < newest:
                    slope = (1.0 - min_scale) / (newest - oldest)
                    for i in range(len(ref_timestamp)):
                        model._interactions_array["scale"][i] = min_scale + slope * (ref_timestamp[i] - oldest)
'''))
r("process: attenuation as a list", AA, ('''                    for i, t in enumerate(ref_timestamp):
                        new_scale = (1.0 - min_scale) / (max_ts - min_ts) * (t - min_ts) + min_scale
                        model._interactions_array["scale"][i] = new_scale
''', '''                    model._interactions_array["scale"] = [(1.0 - min_scale) / (max_ts - min_ts) * (t - min_ts) + min_scale for t in ref_timestamp]
'''))
r("process: unmap result named", AA, ('''            try:
                yield unmap_fn(sampleset, sorted_elements, incoming, outgoing)
            except Exception as e:
                yield f"Failed to unmap: {e}\\n{traceback.format_exc()}"
''', '''            try:
                output = unmap_fn(sampleset, sorted_elements, incoming, outgoing)
            except Exception as e:
                output = f"Failed to unmap: {e}\\n{traceback.format_exc()}"
            yield output
'''))
r("process: outdated message", AA, ('''                yield (
                    f"The received event is outdated: Timestamp is {timestamp.to_utc_datetime()}, "
                    + f"while an event with timestamp of {prev_timestamp.to_utc_datetime()} has been already processed."
                )
                return
''', '''                received, processed = timestamp.to_utc_datetime(), prev_timestamp.to_utc_datetime()
                yield f"The received event is outdated: Timestamp is {received}, while an event with timestamp of {processed} has been already processed."
                return
'''))
r("process: index and value", AA, ('''            _, value = element
            current_index = index.read()
            index.add(1)
            yield (current_index, value)
''', '''            current_index = index.read()
            index.add(1)
            yield (current_index, element[1])
'''))
r("pipeline: conditional input", AA, ('''        inputs = p
        if input_fn is not None:
            inputs = (p
                | "Input" >> input_fn)
''', '''        inputs = p | "Input" >> input_fn if input_fn is not None else p
'''), ('''        if initial_mtype not in valid_initial_mtypes:
            raise ValueError(f"'initial_mtype' must be one of {valid_initial_mtypes}.")

        pipeline_options = PipelineOptions(pipeline_args)
        p = beam.Pipeline(options=pipeline_options)
''', '''        if initial_mtype not in valid_initial_mtypes:
            raise ValueError(f"'initial_mtype' must be one of {valid_initial_mtypes}.")

        p = beam.Pipeline(options=PipelineOptions(pipeline_args))
'''))
r("pipeline: output helper", AA, ('''        if "output.with_timestamp" in algorithm_options:
            solved = (solved
                | "With timestamp for each window" >> beam.ParDo(AbstractAlgorithm.WithTimestampStrFn()))

        if "output.prefix" in algorithm_options:
            solved = (solved
                | "Add output prefix" >> beam.Map(lambda element: algorithm_options["output.prefix"] + element))
        if "output.suffix" in algorithm_options:
            solved = (solved
                | "Add output suffix" >> beam.Map(lambda element: element + algorithm_options["output.suffix"]))
''', '''        solved = cls._decorate(solved, algorithm_options)
'''), ('''    @classmethod
    def _create_pipeline(
''', '''    @classmethod
    def _decorate(cls, solved, options):
        if "output.with_timestamp" in options:
            solved = solved | "With timestamp for each window" >> beam.ParDo(AbstractAlgorithm.WithTimestampStrFn())
        if "output.prefix" in options:
            prefix = options["output.prefix"]
            solved = solved | "Add output prefix" >> beam.Map(lambda element: prefix + element)
        if "output.suffix" in options:
            suffix = options["output.suffix"]
            solved = solved | "Add output suffix" >> beam.Map(lambda element: element + suffix)
        return solved

    @classmethod
    def _create_pipeline(
'''))
r("pipeline: key helper", AA, ('''            | "Prepare key" >> beam.Map(lambda element: (None, element))
''', '''            | "Prepare key" >> beam.Map(cls._with_key)
'''), ('''    @classmethod
    def _create_pipeline(
''', '''    @staticmethod
    def _with_key(element):
        return (None, element)

    @classmethod
    def _create_pipeline(
'''))
r("pipeline: options as dict", AA, ('''            | "Solve" >> beam.ParDo(
                sawatabi.algorithm.Window.SolveDoFn(),
                algorithm=algorithm,
                algorithm_options=algorithm_options,
                map_fn=map_fn,
                solve_fn=solve_fn,
                unmap_fn=unmap_fn,
                solver=solver,
                initial_mtype=initial_mtype,
            ))
''', '''            | "Solve" >> beam.ParDo(AbstractAlgorithm.SolveDoFn(), **solve_options))
'''), ('''        solved = (algorithm_transformed
''', '''        solve_options = dict(
            algorithm=algorithm,
            algorithm_options=algorithm_options,
            map_fn=map_fn,
            solve_fn=solve_fn,
            unmap_fn=unmap_fn,
            solver=solver,
            initial_mtype=initial_mtype,
        )
        solved = (algorithm_transformed
'''))
r("attenuation: windows named", AT, ('''        algorithm_transform = (
            "Sliding windows" >> beam.WindowInto(beam.window.SlidingWindows(size=algorithm_options["window.size"], period=algorithm_options["window.period"]))
''', '''        size, period = algorithm_options["window.size"], algorithm_options["window.period"]
        windows = beam.window.SlidingWindows(size=size, period=period)
        algorithm_transform = (
            "Sliding windows" >> beam.WindowInto(windows)
'''))
r("io: lambdas", IO, ('''            | "Filter" >> beam.Filter(number_pattern.match)
            | "To int" >> beam.Map(int))
''', '''            | "Filter" >> beam.Filter(lambda m: number_pattern.match(m) is not None)
            | "To int" >> beam.Map(lambda m: int(m)))
'''))
r("io: re.match", IO, ('''        number_pattern = re.compile(r"^[0-9]+$")
        return (messages
            | "Filter" >> beam.Filter(number_pattern.match)
''', '''        return (messages
            | "Filter" >> beam.Filter(lambda m: re.match(r"[0-9]+$", m))
'''))
r("io: fullmatch form", IO, ('''re.compile(r"^[0-9]+$")''', '''re.compile(r"^[0-9][0-9]*$")'''))
r("io: source chosen first", IO, ('''        if topic is not None:
            messages = beam.io.ReadFromPubSub(topic=f"projects/{project}/topics/{topic}")
        elif subscription is not None:
            messages = beam.io.ReadFromPubSub(subscription=f"projects/{project}/subscriptions/{subscription}")
        return (messages
            | "Decode" >> beam.Map(lambda m: m.decode("utf-8")))
''', '''        if topic is not None:
            source = {"topic": f"projects/{project}/topics/{topic}"}
        elif subscription is not None:
            source = {"subscription": f"projects/{project}/subscriptions/{subscription}"}
        messages = beam.io.ReadFromPubSub(**source)
        return messages | "Decode" >> beam.Map(cls._decode)

    @staticmethod
    def _decode(m):
        return m.decode("utf-8")
'''))
r("io: decode default encoding", IO, ('''m.decode("utf-8")''', '''m.decode()'''))

# ---------------------------------------------------------------- helpers
r("functions: zip", FN, ('''            return tuple(map(operator.add, a, b))
''', '''            return tuple(x + y for x, y in zip(a, b))
'''), ('''            return list(map(operator.sub, a, b))
''', '''            return [x - y for x, y in zip(a, b)]
'''))
r("functions: apply helper", FN, ('''        if isinstance(a, tuple) and isinstance(b, tuple):
            return tuple(map(operator.add, a, b))
        if isinstance(a, list) and isinstance(b, list):
            return list(map(operator.add, a, b))
        raise TypeError("a and b must be the same type and must be one of [tuple, list].")
''', '''        return cls._apply(operator.add, a, b)

    @classmethod
    def _apply(cls, op, a, b):
        for container in (tuple, list):
            if isinstance(a, container) and isinstance(b, container):
                return container(map(op, a, b))
        raise TypeError("a and b must be the same type and must be one of [tuple, list].")
'''))
r("functions: flatten negated", FN, ('''            if isinstance(element, list):
                yield from cls._flatten(element)
            else:
                yield element
''', '''            if not isinstance(element, list):
                yield element
                continue
            for inner in cls._flatten(element):
                yield inner
'''))
r("profile: result built first", PR, ('''        func_return = func(*args, **kargs)

        execution_sec = time.perf_counter() - start_sec

        return {
            "return": func_return,
            "profile": {
                "function_name": func.__name__,
                "execution_sec": execution_sec,
            },
        }
''', '''        func_return = func(*args, **kargs)
        elapsed = time.perf_counter() - start_sec
        info = {"execution_sec": elapsed, "function_name": func.__name__}
        return dict(profile=info, **{"return": func_return})
'''))
r("time: through the base helper", TI, ('''def current_time_ms():
    return time.time() * 1_000
''', '''def current_time_ms():
    return current_time() * 1e3
'''), ('''def current_time_us_as_int():
    return int(time.time() * 1_000_000)
''', '''def current_time_us_as_int():
    return int(current_time_us())
'''))
