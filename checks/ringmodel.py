"""The documented layout of a RingsSkyMap, independent of the implementation.

N rings of height s = pi/(N+1) between two polar caps of radius s/2; each ring is divided in RA into
int(2 pi cos(dec)/s) + 1 tracts, dec being its edge nearer the equator, the first centred on raStart.
"""
import math

from vlib.gen import ringCounts, ringSize

TWOPI = 2*math.pi
EDGE = 1e-9  # radians: closer than this to an edge, either side is right


class RingModel:
    def __init__(self, spec):
        self.n = spec["numRings"]
        self.s = ringSize(self.n)
        self.counts = ringCounts(self.n)
        self.raStart = math.radians(spec.get("raStart", 0.0))
        self.version = 1 if spec.get("version") is None else spec["version"]
        self.starts = [0]
        for c in self.counts:
            self.starts.append(self.starts[-1] + c)
        self.size = self.starts[-1] + 2

    def index(self, ring, t):
        """Tract id of tract t of a ring (-1 and n are the caps)."""
        if ring < 0:
            return 0
        if ring >= self.n:
            return self.size - 1
        if self.version == 0 and t == 0 and ring > 0:
            # DM-14809: the numbering slips by one after the first ring, so the first tract of each
            # later ring is numbered last in it; that of the last ring falls on the northern cap.
            return self.starts[ring + 1] + 1
        return self.starts[ring] + t + 1

    def ringOf(self, lat):
        x = (lat + 0.5*math.pi)/self.s - 0.5
        return -1 if x < 0 else min(self.n, int(x))

    def tractOf(self, ring, lon):
        width = TWOPI/self.counts[ring]
        d = math.fmod(lon - self.raStart, TWOPI)
        if d < 0:
            d += TWOPI
        return int(d/width + 0.5) % self.counts[ring]

    def owners(self, lon, lat):
        """Set of tract ids that may own this position: one, or more within EDGE of an edge."""
        out = set()
        for a in (lat - EDGE, lat, lat + EDGE):
            ring = self.ringOf(max(-0.5*math.pi, min(0.5*math.pi, a)))
            if ring < 0 or ring >= self.n:
                out.add(self.index(ring, 0))
                continue
            for b in (lon - EDGE, lon, lon + EDGE):
                out.add(self.index(ring, self.tractOf(ring, b)))
        return out

    def place(self, i):
        """(ring, place in the ring) of tract number i; version 0 slips by one after the first ring."""
        if i == 0:
            return -1, 0
        if i == self.size - 1:
            return self.n, 0
        if self.version != 0:
            ring = max(r for r in range(self.n) if self.starts[r] <= i - 1)
            return ring, i - 1 - self.starts[ring]
        # the first ring's number counts[0] + 1 is its first tract again
        if i <= self.counts[0] + 1:
            return 0, (i - 1) % self.counts[0]
        ring = max(r for r in range(self.n) if self.starts[r] + 1 < i)
        return ring, (i - 1 - self.starts[ring]) % self.counts[ring]

    def centre(self, ring, t):
        if ring < 0:
            return 0.0, -0.5*math.pi
        if ring >= self.n:
            return 0.0, 0.5*math.pi
        return ((self.raStart + TWOPI*t/self.counts[ring]) % TWOPI, self.s*(ring + 1) - 0.5*math.pi)

    def bounds(self, ring, t):
        """(raMin, raMax, decMin, decMax); the caps have raMin=0, raMax=2 pi."""
        if ring < 0:
            return 0.0, TWOPI, -0.5*math.pi, -0.5*math.pi + 0.5*self.s
        if ring >= self.n:
            return 0.0, TWOPI, 0.5*math.pi - 0.5*self.s, 0.5*math.pi
        w = TWOPI/self.counts[ring]
        lo = -0.5*math.pi + (ring + 0.5)*self.s
        return self.raStart + (t - 0.5)*w, self.raStart + (t + 0.5)*w, lo, lo + self.s

    def all(self):
        """(index, ring, t) for every numbered tract."""
        if self.version != 0:
            yield 0, -1, 0
            for r in range(self.n):
                for t in range(self.counts[r]):
                    yield self.index(r, t), r, t
            yield self.size - 1, self.n, 0


def near(a, b, tol=1e-9):
    """Angles equal modulo 2 pi."""
    d = math.fmod(a - b, TWOPI)
    return min(abs(d), abs(abs(d) - TWOPI)) <= tol
