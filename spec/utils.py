"""Reference text of the helpers."""
import datetime
import operator
import time

import numpy as np


class Functions:
    @classmethod
    def _flatten(cls, lst):
        for element in lst:
            if not isinstance(element, list):
                yield element
                continue
            yield from cls._flatten(element)

    @classmethod
    def elementwise_add(cls, a, b):
        if isinstance(a, tuple) and isinstance(b, tuple):
            return tuple(x + y for x, y in zip(a, b))
        if isinstance(a, list) and isinstance(b, list):
            return [x + y for x, y in zip(a, b)]
        raise TypeError

    @classmethod
    def elementwise_sub(cls, a, b):
        if isinstance(a, tuple) and isinstance(b, tuple):
            return tuple(x - y for x, y in zip(a, b))
        if isinstance(a, list) and isinstance(b, list):
            return [x - y for x, y in zip(a, b)]
        raise TypeError

    @classmethod
    def elementwise_max(cls, a, b):
        if isinstance(a, tuple) and isinstance(b, tuple):
            return tuple(np.maximum(a, b))
        if isinstance(a, list) and isinstance(b, list):
            return list(np.maximum(a, b))
        raise TypeError

    @classmethod
    def elementwise_min(cls, a, b):
        if isinstance(a, tuple) and isinstance(b, tuple):
            return tuple(np.minimum(a, b))
        if isinstance(a, list) and isinstance(b, list):
            return list(np.minimum(a, b))
        raise TypeError


def current_time():
    return time.time()


def current_time_ms():
    return time.time() * 1000


def current_time_us():
    return time.time() * 1000000


def current_time_ns():
    return time.time() * 1000000000


def current_time_as_int():
    return int(time.time())


def current_time_ms_as_int():
    return int(time.time() * 1000)


def current_time_us_as_int():
    return int(time.time() * 1000000)


def current_time_ns_as_int():
    return int(time.time() * 1000000000)


def profile(func):
    def timed(*args, **kargs):
        t0 = time.perf_counter()
        result = func(*args, **kargs)
        t1 = time.perf_counter()
        return {"return": result, "profile": {"function_name": func.__name__, "execution_sec": t1 - t0}}
    return timed
