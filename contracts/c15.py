"""C15: random streams are reproducible and owned along the random-mother hierarchy."""
import numpy as np
from pyvc.api import contract, bounded
from hermespy.core.random_node import RandomNode, RandomRealization
from hermespy.fec import EncoderManager, RepetitionEncoder
from hermespy.fec.cyclic_redundancy_check import CyclicRedundancyCheck
from hermespy.modem import RandomBitsSource
from hermespy.simulation import AWGN, SimulatedDevice
from hermespy.simulation.simulated_device import NormalTrigger


def draw(g, kind, n):
    """Some draws from a generator."""
    if kind == "integers":
        return g.integers(0, 1000, size=n)
    if kind == "normal":
        return g.normal(size=n)
    return g.uniform(size=n)


KINDS = ["integers", "normal", "uniform"]


@contract("C15", "setting a seed resets the stream", n=60)
def reset(vc):
    s, n, m = vc.int("seed", 0, 2 ** 31), vc.int("n", 1, 9), vc.int("m", 1, 9)
    a, b = vc.choice("first", KINDS), vc.choice("second", KINDS)
    node = RandomNode(seed=s) if vc.bool("given at construction") else RandomNode()
    node.seed = s
    vc.prove("the seed is reported", node.seed == s)
    k, j = vc.index("k", n), vc.index("j", m)
    first = (draw(node._rng, a, n)[k], draw(node._rng, b, m)[j])
    node.seed = s
    second = (draw(node._rng, a, n)[k], draw(node._rng, b, m)[j])
    vc.prove("the same draws", vc.all(first[0] == second[0], first[1] == second[1]))
    other = RandomNode(seed=s)
    third = (draw(other._rng, a, n)[k], draw(other._rng, b, m)[j])
    vc.prove("another node of the same seed draws the same", vc.all(first[0] == third[0], first[1] == third[1]))


class Tree:
    """Three random nodes and, by the documentation, the streams they own."""

    def __init__(self, vc):
        self.vc = vc
        self.nodes = [RandomNode() for _ in range(3)]
        self.mother = [None] * 3
        self.seed = [None] * 3
        self.stream = [None] * 3
        for i in range(3):
            self.set_seed(i)

    def set_seed(self, i):
        if self.seed[i] is None or self.vc.bool(f"another seed {i}"):
            s = self.vc.int(f"seed{i}.{self.seed[i] is None}", 0, 2 ** 31)
        else:
            s = self.seed[i]
        self.nodes[i].seed = s
        self.seed[i], self.stream[i] = s, np.random.default_rng(s)

    def set_mother(self, i, j):
        self.nodes[i].random_mother = None if j is None else self.nodes[j]
        self.mother[i] = j
        self.stream[i] = np.random.default_rng(self.seed[i]) if j is None else None

    def owner(self, i):
        while self.stream[i] is None:
            i = self.mother[i]
        return i

    def below(self, i, j):
        while i is not None:
            if i == j:
                return True
            i = self.mother[i]
        return False

    def operate(self, name, i):
        if name == "seed":
            self.set_seed(i)
        elif name == "mother":
            others = [j for j in range(3) if not self.below(j, i)]
            if others:
                self.set_mother(i, self.vc.choice(f"mother of {i}", others))
        elif name == "no mother":
            self.set_mother(i, None)

    def check(self, label):
        vc = self.vc
        for i in range(3):
            o = self.owner(i)
            vc.prove(f"{label}: roots own their stream", self.nodes[i].is_random_root == (o == i))
            vc.prove(f"{label}: mothers are reported", self.nodes[i].random_mother is (None if self.mother[i] is None else self.nodes[self.mother[i]]))
            vc.prove(f"{label}: seeds are reported", self.nodes[i].seed == self.seed[i])
            got, e = draw(self.nodes[i]._rng, KINDS[i], 2), draw(self.stream[o], KINDS[i], 2)
            vc.prove(f"{label}: draws come from the owner's stream", vc.all(got[0] == e[0], got[1] == e[1]))


for OP in ["seed", "mother", "no mother"]:
    @contract("C15", f"streams after {OP}", n=100, limit=80)
    def streams(vc, OP=OP):
        t = Tree(vc)
        for i, j in enumerate({"apart": (None, None, None), "chain": (None, 0, 1), "branches": (None, 0, 0)}[
                vc.choice("arrangement", ["apart", "chain", "branches"])]):
            if j is not None:
                t.set_mother(i, j)
        t.check("before")
        t.operate(OP, vc.choice("node", range(3)))
        t.check("after")

    @contract("C15", f"streams after {OP} and another change", n=100, limit=80)
    def twice(vc, OP=OP):
        t = Tree(vc)
        t.set_mother(1, 0)
        t.set_mother(2, 1)
        t.operate(OP, vc.choice("node", range(3)))
        i = vc.choice("other node", range(3))
        other = vc.choice("other change", ["seed", "mother", "no mother"])
        others = [j for j in range(3) if not t.below(j, i)]
        if other == "seed":
            s = vc.int("other seed", 0, 2 ** 31)
            t.nodes[i].seed = s
            t.seed[i], t.stream[i] = s, np.random.default_rng(s)
        elif other == "no mother":
            t.set_mother(i, None)
        elif others:
            t.set_mother(i, vc.choice("other mother", others))
        t.check("after")


@contract("C15", "nodes created below a mother", n=40)
def created(vc):
    s, r = vc.int("seed", 0, 2 ** 31), vc.int("own seed", 0, 2 ** 31)
    mother = RandomNode(seed=s)
    reference = np.random.default_rng(s)
    if vc.bool("owns a seed"):
        node = RandomNode(mother, r)
        e = draw(np.random.default_rng(r), "normal", 2)
    else:
        node = RandomNode(mother)
        e = draw(reference, "normal", 2)
    vc.prove("mother", node.random_mother is mother)
    got = draw(node._rng, "normal", 2)
    vc.prove("draws come from the owner's stream", vc.all(got[0] == e[0], got[1] == e[1]))


@contract("C15", "random realizations", n=40)
def realizations(vc):
    s = vc.int("seed", 0, 2 ** 31)
    r = RandomRealization(s)
    a, b, e = (draw(g, "normal", 2) for g in (r.generator(), r.generator(), np.random.default_rng(s)))
    vc.prove("the seed is reported", r.seed == s)
    vc.prove("each generator starts anew", vc.all(a[0] == b[0], a[1] == b[1]))
    vc.prove("draws are those of the seed", vc.all(a[0] == e[0], a[1] == e[1]))


# Components -----------------------------------------------------------------------------------------------------------
def trigger(m):
    SimulatedDevice().trigger_model = m
    return m


def delay(m):
    try:
        return [m.realize().num_offset_samples]
    except ValueError:  # offsets may not be negative
        return [-1]


def padded():
    m = EncoderManager()
    m.add_encoder(RepetitionEncoder(bit_block_size=4, repetitions=3))
    return m


COMPONENTS = {
    "random bits": (RandomBitsSource, lambda c: list(c.generate_bits(6))),
    "white noise": (AWGN, lambda c: [c.realize(2.0).seed]),
    "normal triggers": (lambda: trigger(NormalTrigger(2.0, 3.0)), delay),
    "padding": (padded, lambda c: list(c.encode(np.zeros(11, dtype=np.uint8)))),
    "check bits": (lambda: CyclicRedundancyCheck(4, 3), lambda c: list(c.encode(np.zeros(4, dtype=np.uint8)))),
}

for NAME in COMPONENTS:
    @contract("C15", f"reproducible components: {NAME}", n=30)
    def components(vc, NAME=NAME):
        make, use = COMPONENTS[NAME]
        s = vc.int("seed", 0, 2 ** 31)
        how = vc.choice("seeded by", ["itself", "its mother"])
        outs = []
        for _ in range(2):
            c = make()
            if how == "itself":
                c.seed = s
            else:
                c.random_mother = RandomNode(seed=s)
            outs.append([use(c), use(c)])
        vc.prove("as many draws", [len(x) for x in outs[0]] == [len(x) for x in outs[1]])
        for x, y in zip(outs[0], outs[1]):
            for p, q in zip(x, y):
                vc.prove("the same outputs in the same order", p == q)


def scenario(seed, kind, power):
    """Received samples of two drops of a seeded scenario."""
    from hermespy.channel import Exponential, RandomDelayChannel, SpatialDelayChannel, TDL, TDLType, MultipathFadingChannel, IndoorOffice, UrbanMicrocells, OfficeType
    from hermespy.core import DenseSignal
    from hermespy.simulation import N0, SimulationScenario, StaticTrajectory
    from hermespy.core import Transformation
    from hermespy.simulation.simulated_device import RandomTrigger, SimulatedDevice
    from hermespy.core import SignalTransmitter, SignalReceiver
    s = SimulationScenario(seed=seed)
    a = s.new_device(carrier_frequency=1e9, pose=Transformation.From_Translation(np.array([0.0, 0.0, 2.0])))
    b = s.new_device(carrier_frequency=1e9, pose=Transformation.From_Translation(np.array([70.0, 10.0, 1.5])))
    for d in (a, b):
        d.noise_model = AWGN()
        d.noise_level = N0(power)
        d.trigger_model = RandomTrigger()
    c = {"random delay": lambda: RandomDelayChannel((1e-9, 1e-6)), "exponential": lambda: Exponential(1e-7, 1e-7),
         "tapped delay": lambda: TDL(TDLType.A, 1e-7), "office": lambda: IndoorOffice(office_type=OfficeType.OPEN),
         "urban": lambda: UrbanMicrocells(),
         "fading": lambda: MultipathFadingChannel(np.array([0.0, 2e-7]), np.ones(2), np.array([0.0, 2.0]), doppler_frequency=10.0)}[kind]()
    s.set_channel(a, b, c)
    x = DenseSignal.FromNDArray(np.exp(1j * np.arange(64))[None, :], 1e8)
    t, r = SignalTransmitter(x), SignalReceiver(64)
    a.transmitters.add(t)
    b.receivers.add(r)
    out = []
    for _ in range(2):
        drop = s.drop()
        for d in drop.device_receptions:
            for i in d.impinging_signals:
                out.append(i.to_dense().view(np.ndarray))
            for o in d.operator_receptions:
                out.append(o.signal.to_dense().view(np.ndarray))
    return out


@bounded("C15", "seeded scenarios", n=24, budget=40, bound="24 sampled scenarios of one link and two drops each")
def scenarios(vc):
    seed, kind = int(vc.rng.integers(1 << 30)), ["random delay", "exponential", "tapped delay", "office", "urban", "fading"][vc.rng.integers(6)]
    p = float(vc.rng.uniform(0.1, 2))
    x, y = scenario(seed, kind, p), scenario(seed, kind, p)
    vc.prove("as many signals", len(x) == len(y) and len(x) > 0, kind)
    for a, b in zip(x, y):
        vc.prove("the same samples", a.shape == b.shape and np.array_equal(a, b), kind)
