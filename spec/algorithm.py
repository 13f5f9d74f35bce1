"""Reference text of the streaming algorithms and their adapters."""
import json
import re
import traceback

import apache_beam as beam
from apache_beam.options.pipeline_options import PipelineOptions

from sawatabi.algorithm.abstract_algorithm import AbstractAlgorithm as AA
from sawatabi.model.logical_model import LogicalModel as LM
from sawatabi.solver.local_solver import LocalSolver


def last(cell, default):
    values = list(cell.read())
    return values[-1] if values else default


def store(cell, value):
    cell.clear()
    cell.add(value)


class IndexAssigningStatefulDoFn:
    def process(self, element, index):
        n = index.read()
        index.add(1)
        yield (n, element[1])


class WithTimestampTupleFn:
    def process(self, data, timestamp=beam.DoFn.TimestampParam):
        yield (float(timestamp), data)


class WithTimestampStrFn:
    def process(self, data, timestamp=beam.DoFn.TimestampParam):
        yield f"[{timestamp.to_utc_datetime()}] {data}"


class SolveDoFn:
    def process(self, value, timestamp, timestamp_state, elements_state, model_state, sampleset_state, algorithm=None, algorithm_options=None,
                map_fn=None, solve_fn=None, unmap_fn=None, solver=LocalSolver(exact=False), initial_mtype="ising"):
        before = last(timestamp_state, beam.utils.timestamp.MIN_TIMESTAMP)
        previous = last(elements_state, [])
        if model_state.read():
            old = list(model_state.read())[-1]
        else:
            old = LM(mtype=initial_mtype)
        solution = last(sampleset_state, None)
        if float(timestamp) < float(before):
            yield (f"The received event is outdated: Timestamp is {timestamp.to_utc_datetime()}, "
                   f"while an event with timestamp of {before.to_utc_datetime()} has been already processed.")
            return
        if algorithm == "incremental":
            current = sorted(list(value[1]) + list(previous))
        elif algorithm == "partial":
            kept = []
            for e in previous:
                if algorithm_options["filter_fn"](e) and e not in value[1]:
                    kept.append(e)
            current = sorted(kept + list(value[1]))
        else:
            current = sorted(value[1])
        gone = [e for e in previous if e not in current]
        if previous:
            new = [e for e in current if e[0] > previous[-1][0]]
        else:
            new = current
        store(timestamp_state, timestamp)
        store(elements_state, current)
        try:
            model = map_fn(old, solution, current, new, gone)
        except Exception as e:
            yield f"Failed to map: {e}\n{traceback.format_exc()}"
            return
        store(model_state, model)
        if algorithm == "attenuation":
            model.to_physical()
            ages = model._interactions_array[algorithm_options["attenuation.key"]]
            if min(ages) < max(ages):
                for i, t in enumerate(ages):
                    low = algorithm_options["attenuation.min_scale"]
                    model._interactions_array["scale"][i] = low + (1 - low) * (t - min(ages)) / (max(ages) - min(ages))
        try:
            answer = solve_fn(solver, model, solution, current, new, gone)
        except Exception as e:
            yield f"Failed to solve: {e}\n{traceback.format_exc()}"
            return
        store(sampleset_state, answer)
        try:
            yield unmap_fn(answer, current, new, gone)
        except Exception as e:
            yield f"Failed to unmap: {e}\n{traceback.format_exc()}"


class AbstractAlgorithm:
    def _create_pipeline(cls, algorithm, algorithm_transform, algorithm_options, input_fn=None, map_fn=None, solve_fn=None, unmap_fn=None, output_fn=None,
                         solver=LocalSolver(exact=False), initial_mtype="ising", pipeline_args=None):
        if not isinstance(initial_mtype, str):
            raise TypeError
        if initial_mtype not in ("ising", "qubo"):
            raise ValueError
        p = beam.Pipeline(options=PipelineOptions(["--runner=DirectRunner"] if pipeline_args is None else pipeline_args))
        x = p
        if input_fn is not None:
            x = x | "Input" >> input_fn
        x = x | "key" >> beam.Map(lambda e: (None, e))
        x = x | "index" >> beam.ParDo(AA.IndexAssigningStatefulDoFn())
        if "input.reassign_timestamp" in algorithm_options:
            x = x | "time" >> beam.Map(lambda e: beam.window.TimestampedValue(e, e[0]))
        x = x | algorithm_transform
        x = x | "key2" >> beam.Map(lambda e: (None, e))
        x = x | "solve" >> beam.ParDo(AA.SolveDoFn(), algorithm=algorithm, algorithm_options=algorithm_options, map_fn=map_fn, solve_fn=solve_fn,
                                      unmap_fn=unmap_fn, solver=solver, initial_mtype=initial_mtype)
        if "output.with_timestamp" in algorithm_options:
            x = x | "stamp" >> beam.ParDo(AA.WithTimestampStrFn())
        if "output.prefix" in algorithm_options:
            x = x | "prefix" >> beam.Map(lambda e: algorithm_options["output.prefix"] + e)
        if "output.suffix" in algorithm_options:
            x = x | "suffix" >> beam.Map(lambda e: e + algorithm_options["output.suffix"])
        if output_fn is not None:
            x | "Output" >> output_fn
        return p


def chain(windows):
    return (
        "window" >> beam.WindowInto(windows)
        | "stamp" >> beam.ParDo(AA.WithTimestampTupleFn())
        | "list" >> beam.CombineGlobally(beam.combiners.ToListCombineFn()).without_defaults()
        | "global" >> beam.WindowInto(beam.window.GlobalWindows())
    )


def sliding(options):
    return chain(beam.window.SlidingWindows(size=options["window.size"], period=options["window.period"]))


class Attenuation:
    def create_pipeline(cls, algorithm_options, **kwargs):
        return cls._create_pipeline(algorithm="attenuation", algorithm_transform=sliding(algorithm_options), algorithm_options=algorithm_options, **kwargs)


class Delta:
    def create_pipeline(cls, algorithm_options, **kwargs):
        t = chain(beam.window.FixedWindows(size=algorithm_options["window.size"]))
        return cls._create_pipeline(algorithm="delta", algorithm_transform=t, algorithm_options=algorithm_options, **kwargs)


class Incremental:
    def create_pipeline(cls, algorithm_options, **kwargs):
        t = chain(beam.window.FixedWindows(size=algorithm_options["incremental.size"]))
        return cls._create_pipeline(algorithm="incremental", algorithm_transform=t, algorithm_options=algorithm_options, **kwargs)


class Partial:
    def create_pipeline(cls, algorithm_options, **kwargs):
        return cls._create_pipeline(algorithm="partial", algorithm_transform=sliding(algorithm_options), algorithm_options=algorithm_options, **kwargs)


class Window:
    def create_pipeline(cls, algorithm_options, **kwargs):
        return cls._create_pipeline(algorithm="window", algorithm_transform=sliding(algorithm_options), algorithm_options=algorithm_options, **kwargs)


def numbers(messages):
    return messages | beam.Filter(re.compile(r"^[0-9]+$").match) | beam.Map(int)


def pubsub(project, topic, subscription):
    if topic is not None:
        source = beam.io.ReadFromPubSub(topic=f"projects/{project}/topics/{topic}")
    elif subscription is not None:
        source = beam.io.ReadFromPubSub(subscription=f"projects/{project}/subscriptions/{subscription}")
    return source | beam.Map(lambda m: m.decode("utf-8"))


def text(path):
    return beam.io.ReadFromText(file_pattern=path)


class IO:
    def read_from_pubsub(cls, project, topic=None, subscription=None):
        return pubsub(project, topic, subscription)

    def read_from_pubsub_as_number(cls, project, topic=None, subscription=None):
        return numbers(pubsub(project, topic, subscription))

    def read_from_pubsub_as_json(cls, project, topic=None, subscription=None):
        return pubsub(project, topic, subscription) | beam.Map(json.loads)

    def read_from_text(cls, path):
        return text(path)

    def read_from_text_as_number(cls, path):
        return numbers(text(path))

    def read_from_text_as_json(cls, path):
        return text(path) | beam.Map(json.loads)

    def write_to_stdout(cls):
        return "out" >> beam.Map(print)

    def write_to_pubsub(cls, project, topic):
        return "encode" >> beam.Map(lambda s: s.encode("utf-8")) | beam.io.WriteToPubSub(topic=f"projects/{project}/topics/{topic}")

    def write_to_text(cls, path):
        return beam.io.WriteToText(file_path_prefix=path)
