"""Simulated chance and clocks for code that draws from the shared generator of the random module."""
import random
import time

NAMES = ["random", "uniform", "triangular", "randint", "choice", "randrange", "sample", "shuffle", "choices", "getrandbits",
         "betavariate", "expovariate", "gauss"]
ONE = 1.0 - 2.0 ** -53


class SimRandom(random.Random):
    """mode: seed (fair), zero / one (always the extreme value), grid (multiples of 1/parts), mixed"""

    def __init__(self, mode, seed):
        self.mode = "seed"
        super().__init__(seed)
        self.aux = random.Random("%s aux" % (seed,))
        self.mode = mode
        self.calls = 0

    def random(self):
        self.calls += 1
        mode = self.mode
        if mode == "mixed":
            mode = self.aux.choice(["seed", "zero", "one", "grid"])
        if mode == "zero":
            return 0.0
        if mode == "one":
            return ONE
        if mode == "grid":
            m = self.aux.choice([2, 4, 34, 122, 136])
            return self.aux.randrange(m) / m
        return super().random()

    def choices(self, population, weights=None, *, cum_weights=None, k=1):
        return super().choices(population, weights, cum_weights=cum_weights, k=k)


class Chance:
    def __init__(self, mode, seed):
        self.mode, self.seed = mode, seed

    def __enter__(self):
        self.saved = {n: getattr(random, n) for n in NAMES}
        self.inst = random._inst
        self.state = self.inst.getstate()
        self.sim = SimRandom(self.mode, self.seed)
        random._inst = self.sim
        for n in NAMES:
            setattr(random, n, getattr(self.sim, n))
        # whoever kept the old functions gets a seeded generator as well
        self.inst.seed(str(self.seed))
        try:
            import numpy
            self.np = numpy.random.get_state()
            numpy.random.seed(hash_of(self.seed))
        except ImportError:
            self.np = None
        return self

    def __exit__(self, *a):
        random._inst = self.inst
        for n, f in self.saved.items():
            setattr(random, n, f)
        self.inst.setstate(self.state)
        if self.np is not None:
            import numpy
            numpy.random.set_state(self.np)
        return False


def hash_of(seed):
    return random.Random(str(seed)).getrandbits(32)


CLOCKS = ["time", "monotonic", "perf_counter", "process_time"]


class Clock:
    """one virtual clock behind all clock functions, and behind those a module took by name.
    steps: what successive readings add, used cyclically; may be zero, huge or negative"""

    def __init__(self, steps, *modules):
        self.steps = list(steps) or [0.0]
        self.modules = modules
        self.now = 1000.0
        self.readings = 0
        self.covered = 0.0

    def read(self):
        d = self.steps[self.readings % len(self.steps)]
        self.readings += 1
        self.now += d
        self.covered += abs(d)
        return self.now

    def read_ns(self):
        return int(self.read() * 1e9)

    def sleep(self, s):
        self.now += s

    def __enter__(self):
        self.saved = {n: getattr(time, n) for n in CLOCKS}
        self.saved["sleep"] = time.sleep
        self.names = []
        for n in CLOCKS:
            setattr(time, n, self.read)
            if hasattr(time, n + "_ns"):
                self.saved[n + "_ns"] = getattr(time, n + "_ns")
                setattr(time, n + "_ns", self.read_ns)
        time.sleep = self.sleep
        for m in self.modules:
            for k, v in list(vars(m).items()):
                for n in CLOCKS:
                    if v is self.saved[n]:
                        self.names.append((m, k, v))
                        setattr(m, k, self.read)
        return self

    def __exit__(self, *a):
        for n, f in self.saved.items():
            setattr(time, n, f)
        for m, k, v in self.names:
            setattr(m, k, v)
        return False
