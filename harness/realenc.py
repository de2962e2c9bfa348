"""Encoding of reals for the TLA+ side: <<hi, lo>> halves of the IEEE-754 bit pattern."""
import struct
import numpy as np


def enc(x):
    x = float(x)
    if x == int(x) if abs(x) < 1e6 else False:
        if x != 0.0 or str(x) != '-0.0':
            return int(x)
        return 0
    hi, lo = struct.unpack('>ii', struct.pack('>d', x))
    return [hi, lo]


def encs(xs):
    return [enc(x) for x in xs]


def encm(m):
    return [[enc(x) for x in row] for row in m]


def dec(v):
    if isinstance(v, (int, float)):
        return float(v)
    return struct.unpack('>d', struct.pack('>ii', v[0], v[1]))[0]
