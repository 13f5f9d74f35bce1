"""Reference text of the solvers."""
import gzip
import io
import json
import math
import os
import time

import dimod
import neal
import numpy as np
import requests
import yaml
from dwave.system.composites import EmbeddingComposite
from dwave.system.samplers import DWaveSampler

from sawatabi.model.physical_model import PhysicalModel as PM


def need(condition):
    if not condition:
        raise ValueError


def check(model):
    if not isinstance(model, PM):
        raise TypeError
    need(model._raw_interactions[1] or model._raw_interactions[2])


class LocalSolver:
    def __init__(self, exact=False):
        self._exact = exact
        self._solver = dimod.ExactSolver() if exact else neal.SimulatedAnnealingSampler()

    def solve(self, model, **kwargs):
        check(model)
        bqm = model.to_bqm()
        if self._exact:
            result = self._solver.sample(bqm)
        else:
            result = self._solver.sample(bqm, **kwargs)
        return result

    def default_beta_range(self, model):
        check(model)
        return neal.default_beta_range(model.to_bqm())


class DWaveSolver:
    def __init__(self, endpoint=None, token=None, solver="Advantage_system1.1", embedding_parameters=None):
        self._endpoint = endpoint
        self._token = token
        self._solver = solver
        if endpoint is None or token is None:
            sampler = DWaveSampler(solver=solver)
        else:
            sampler = DWaveSampler(endpoint=endpoint, token=token, solver=solver)
        if isinstance(embedding_parameters, dict):
            self._composite = EmbeddingComposite(sampler, embedding_parameters=embedding_parameters)
        else:
            self._composite = EmbeddingComposite(sampler)

    def solve(self, model, **kwargs):
        check(model)
        return self._composite.sample(model.to_bqm(), **kwargs)


class OptiganSolver:
    def __init__(self, config=None, endpoint=None, token=None):
        home = f"{os.path.expanduser('~')}/.optigan.yml"
        if config:
            self._config_filename = config
        else:
            self._config_filename = home if os.path.exists(home) else None
        self._endpoint = endpoint
        self._token = token

    def get_config(self):
        with open(self._config_filename, "r") as f:
            return yaml.safe_load(f)

    def solve(self, model, num_unit_steps=10, timeout=10000, duplicate=False, gzip_request=True, gzip_response=True):
        check(model)
        need(model._mtype != "ising")
        request = {"num_unit_steps": num_unit_steps, "timeout": timeout, "polynomial": model.to_polynomial()}
        if duplicate:
            request["outputs"] = {"duplicate": True, "num_outputs": 0}
        if self._endpoint and self._token:
            where, secret = self._endpoint, self._token
        elif self._config_filename:
            with open(self._config_filename, "r") as f:
                settings = yaml.safe_load(f)
            where, secret = settings["api"]["endpoint"], settings["api"]["token"]
        head = {"Authorization": f"Bearer {secret}", "X-Accept": "application/json"}
        if gzip_response:
            head["Accept-Encoding"] = "gzip"
        if gzip_request:
            head["Content-Encoding"] = "gzip"
            body = io.BytesIO()
            with gzip.GzipFile(fileobj=body, mode="wb") as z:
                z.write(json.dumps(request).encode("utf-8"))
            answer = requests.post(where, headers=head, data=body.getvalue())
        else:
            head["Content-Type"] = "application/json; charset=UTF-8"
            answer = requests.post(where, headers=head, json=request)
        need(answer.status_code == 200)
        content = answer.json()
        samples = [dict(zip(list(model._index_to_label.values()), values)) for values in content["spins"]]
        energies = [e + model._offset for e in content["energies"]]
        sampleset = dimod.SampleSet.from_samples(samples, vartype=dimod.BINARY, energy=energies, aggregate_samples=True, sort_labels=True)
        sampleset._info = content
        return sampleset


class SawatabiSolver:
    def solve(self, model, num_reads=1, num_sweeps=100, cooling_rate=0.9, initial_temperature=100.0, initial_states=None, reverse_options=None,
              pickup_mode="random", seed=None, need_stats=False):
        check(model)
        need(not initial_states or len(initial_states) == num_reads)
        need(pickup_mode in ("random", "sequential"))
        if reverse_options:
            if not isinstance(reverse_options, dict):
                raise TypeError
            need("reverse_period" in reverse_options and "reverse_temperature" in reverse_options)
        rng = np.random.default_rng(seed)
        given = model.to_bqm(sign=1.0)
        spin = given
        starts = initial_states
        if given.vartype is not dimod.SPIN:
            spin = given.change_vartype(dimod.SPIN, inplace=False)
            if initial_states:
                starts = [{k: (-1 if v == 0 else v) for k, v in s.items()} for s in initial_states]
        n = spin.num_variables
        # fields and couplings by index
        h = [0.0 for _ in range(n)]
        for label, value in spin.linear.items():
            h[model._label_to_index[label]] = value
        J = [{} for _ in range(n)]
        for label, neighbours in spin.adj.items():
            J[model._label_to_index[label]] = {model._label_to_index[other]: value for other, value in neighbours.items()}
        samples, energies, stats = [], [], []
        for read in range(num_reads):
            # initial state
            start = starts[read] if initial_states else None
            if start is None:
                x = ((rng.integers(2, size=n) - 0.5) * 2).astype(int)
            else:
                x = np.ones(shape=n, dtype=int)
                for v in spin.variables:
                    x[model._label_to_index[v]] = start[v]
            energy = -spin.energy(dict(zip(list(model._index_to_label.values()), x)))
            rising = bool(reverse_options)
            distance = reverse_options["reverse_temperature"] if rising else None
            temperature = 1e-9 if rising else initial_temperature
            energy_history, temperature_history, acceptance_history = [], [], []
            randoms = rng.random(size=num_sweeps * n)
            used = -1
            for sweep in range(num_sweeps):
                if rising and sweep >= reverse_options["reverse_period"]:
                    rising = False
                energy_history.append(energy)
                temperature_history.append(temperature)
                if pickup_mode == "random":
                    order = rng.permutation(n)
                else:
                    order = np.arange(n)
                flips = 0
                for i in order:
                    field = h[i]
                    for k, j in J[i].items():
                        field += x[k] * j
                    delta = 2 * x[i] * field
                    if delta <= 0:
                        accept = True
                    else:
                        used += 1
                        accept = randoms[used] < math.exp(-delta / temperature)
                    if accept:
                        x[i] *= -1
                        energy += delta
                        flips += 1
                acceptance_history.append(flips)
                if rising:
                    distance *= cooling_rate
                    temperature = reverse_options["reverse_temperature"] - distance
                else:
                    temperature *= cooling_rate
            samples.append(dict(zip(list(model._index_to_label.values()), x)))
            energies.append(energy + 2 * given.offset)
            stats.append({"energy_history": energy_history, "temperature_history": temperature_history, "acceptance_history": acceptance_history})
        result = dimod.SampleSet.from_samples(samples, vartype=dimod.SPIN, energy=energies, aggregate_samples=True, sort_labels=True)
        result = result.change_vartype(given.vartype, inplace=True)
        return (result, stats) if need_stats else result
