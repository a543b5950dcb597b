"""
A solar system made up by the harness, in a file like those of JPL.

Every body moves by a short Chebyshev series around its own place; the series
are written to an SPK kernel (the format of spice-data/de432s.bsp), which the
code under test reads with its own libraries.
"""
import math
import random
import struct

import numpy as np

LEGS = {'sun': [(0, 10)], 'VENUS': [(0, 2), (2, 299)], 'EARTH': [(0, 3), (3, 399)], 'MARS': [(0, 4)], 'JUPITER': [(0, 5)],
        'SATURN': [(0, 6)], 'URANUS': [(0, 7)], 'NEPTUNE': [(0, 8)], 'MERCURY': [(0, 1), (1, 199)]}
AU = 149597870.7


class Ephemeris:
    """Positions (km) of all bodies within `days` days around a Julian date."""

    def __init__(self, seed, jd, days=40.0):
        rng = random.Random(seed)
        self.mid = (jd - 2451545.0) * 86400.0
        self.rad = days * 86400.0
        self.seg = {}
        for legs in LEGS.values():
            for k, leg in enumerate(legs):
                size = AU * 10 ** rng.uniform(-0.4, 1.5) if k == 0 else 10 ** rng.uniform(3, 6)
                z = rng.uniform(-1, 1)
                a = rng.uniform(0, 2 * math.pi)
                u = [math.sqrt(1 - z * z) * math.cos(a), math.sqrt(1 - z * z) * math.sin(a), z]
                self.seg[leg] = [[size * x] + [size * rng.uniform(-0.2, 0.2) / 2 ** m for m in range(3)] for x in u]

    def covers(self, jd):
        return abs((jd - 2451545.0) * 86400.0 - self.mid) <= self.rad

    def pos(self, body, jd):
        t = ((jd - 2451545.0) * 86400.0 - self.mid) / self.rad
        T = [1.0, t, 2 * t * t - 1, 4 * t ** 3 - 3 * t]
        r = np.zeros(3)
        for leg in LEGS['SATURN' if body == 'TITAN' else body]:
            r = r + np.array([sum(c * p for c, p in zip(row, T)) for row in self.seg[leg]])
        return r

    def write(self, path, without=None):
        legs = [leg for leg in self.seg if leg not in (LEGS['SATURN' if without == 'TITAN' else without] if without else ())]
        data, summ = [], b''
        word = 3 * 128 + 1                                  # first word after three records
        for leg in legs:
            d = [self.mid, self.rad] + [c for row in self.seg[leg] for c in row]
            d += [self.mid - self.rad, 2 * self.rad, float(len(d)), 1.0]
            summ += struct.pack('<2d6i', self.mid - self.rad, self.mid + self.rad, leg[1], leg[0], 1, 2, word, word + len(d) - 1)
            word += len(d)
            data += d
        head = b'DAF/SPK ' + struct.pack('<2i', 2, 6) + b'simulated solar system'.ljust(60) + struct.pack('<3i', 2, 2, word)
        head = (head + b'LTL-IEEE').ljust(699, b'\0') + b'FTPSTR:\r:\n:\r\n:\r\x00:\x81:\x10\xce:ENDFTP'
        body = struct.pack('<3d', 0.0, 0.0, float(len(legs))) + summ
        names = b''.join(b'SEGMENT'.ljust(40) for _ in legs)
        blob = head.ljust(1024, b'\0') + body.ljust(1024, b'\0') + names.ljust(1024, b' ') + struct.pack('<%dd' % len(data), *data)
        with open(path, 'wb') as f:
            f.write(blob)
        return len(blob)
