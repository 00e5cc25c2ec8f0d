"""C21: radio-frequency chains propagate each block once, after all of its inputs."""
import numpy as np
from pyvc.api import contract, bounded
from hermespy.core.signal_model import DenseSignal
from hermespy.simulation.rf.block import (DSPInputBlock, DSPOutputBlock, RFBlock, RFBlockPort, RFBlockPortType, RFBlockRealization)
from hermespy.simulation.rf.chain import RFBlockPortReference, RFChain
from hermespy.simulation.rf.noise.model import AWGN
from hermespy.simulation.rf.signal import RFSignal

RATE, FC = 4.0, 8.0
IN, OUT = RFBlockPortType.IN, RFBlockPortType.OUT


class Probe(RFBlock):
    """A block applying a matrix and logging its inputs."""

    def __init__(self, matrix, log):
        RFBlock.__init__(self)
        self.matrix, self.log = np.asarray(matrix, dtype=float), log
        self.i = RFBlockPort(self, range(self.matrix.shape[1]), IN)
        self.o = RFBlockPort(self, range(self.matrix.shape[0]), OUT)

    @property
    def num_input_ports(self):
        return self.matrix.shape[1]

    @property
    def num_output_ports(self):
        return self.matrix.shape[0]

    def realize(self, bandwidth, oversampling_factor, carrier_frequency):
        return RFBlockRealization(bandwidth, oversampling_factor, AWGN().realize(0.0))

    def _propagate(self, realization, input):
        x = input.view(np.ndarray).copy()
        self.log.append((self, x, realization, input.carrier_frequencies.copy()))
        y = self.matrix @ x if self.num_input_ports else np.ones((self.num_output_ports, x.shape[1]), dtype=complex)
        return RFSignal.FromNDArray(y, input.sampling_rate, np.full(self.num_output_ports, 3.0 + len(self.matrix)))


class Source(Probe, DSPInputBlock):
    pass


class Sink(Probe, DSPOutputBlock):
    pass


def matrix(k, nout, nin):
    """Distinct mixing coefficients."""
    return [[float(1 + k + 3 * i - 2 * j + (i * j) % 5) for j in range(nin)] for i in range(nout)]


class Chain:
    """A chain of probes and the connections made."""

    def __init__(self, blocks):
        self.chain, self.log = RFChain(seed=1), []
        self.blocks = [kind(matrix(k, nout, nin), self.log) for k, (kind, nin, nout) in enumerate(blocks)]
        self.refs = [self.chain.add_block(b) for b in self.blocks]
        self.feeds = {}

    def connect(self, a, outs, b, ins, swap=False):
        o = RFBlockPortReference(self.refs[a], outs, OUT)
        i = RFBlockPortReference(self.refs[b], ins, IN)
        self.chain.connect(*((i, o) if swap else (o, i)))
        for p, q in zip(outs, ins):
            self.feeds[b, q] = (a, p)

    def inputs(self, b, external, outputs, n):
        """What the ports of block b have to receive."""
        rows = []
        for q in range(self.blocks[b].num_input_ports):
            if (b, q) in self.feeds:
                a, p = self.feeds[b, q]
                rows.append(outputs[a][p])
            else:
                rows.append(external.get((b, q), np.zeros(n, dtype=complex)))
        return rows

    def needed(self, last):
        """Blocks feeding the given ones, in index order, which is a topological one."""
        seen = set(last)
        for b in reversed(range(len(self.blocks))):
            if b in seen:
                seen |= {a for (c, _), (a, _) in self.feeds.items() if c == b}
        return sorted(seen)

    def expected(self, last, external, n):
        outputs, inputs = {}, {}
        for b in self.needed(last):
            block = self.blocks[b]
            inputs[b] = self.inputs(b, external, outputs, n)
            if block.num_input_ports:
                outputs[b] = [sum((block.matrix[i, j] * inputs[b][j] for j in range(1, block.num_input_ports)),
                                  block.matrix[i, 0] * inputs[b][0]) for i in range(block.num_output_ports)]
            else:
                outputs[b] = [np.ones(n, dtype=complex) for _ in range(block.num_output_ports)]
        return inputs, outputs


def judge(vc, c, out, real, last, external, n):
    inputs, outputs = c.expected(last, external, n)
    seen = [c.blocks.index(b) for b, *_ in c.log]
    vc.prove("each block is propagated exactly once", sorted(seen) == sorted(inputs))
    vc.prove("each block is propagated after all blocks feeding it",
             all(seen.index(a) < seen.index(b) for (b, _), (a, _) in c.feeds.items() if b in seen and a in seen))
    k = vc.index("sample", n)
    for b, x, r, carriers in c.log:
        b = c.blocks.index(b)
        vc.prove("each block uses its own realisation", r is real.block_states[c.refs[b]])
        vc.prove("as many samples", x.shape == (len(inputs[b]), n))
        for q in range(x.shape[0]):
            vc.eq("each port carries the stream it is connected to", x[q, k], inputs[b][q][k], tol=1e-9)
            if (b, q) in c.feeds:
                vc.eq("each port carries the carrier frequency it is connected to", carriers[q],
                      3.0 + len(c.blocks[c.feeds[b, q][0]].matrix))
    rows = [(b, p) for b in last for p in range(len(outputs[b]))]
    vc.prove("number of streams and samples", out.shape == (len(rows), n))
    for q, (b, p) in enumerate(rows):
        vc.eq("output streams", out.view(np.ndarray)[q, k], outputs[b][p][k], tol=1e-9)


def transmitted(vc, c, last, n):
    x = [(b, q) for b, block in enumerate(c.blocks) if isinstance(block, Source) for q in range(block.num_input_ports)]
    s = vc.array("signal", (len(x), n), "c")
    external = {port: s[i] for i, port in enumerate(x)}
    signal = DenseSignal.FromNDArray(s, RATE, 1.0)
    real = c.chain.realize(RATE, 1, FC)
    judge(vc, c, c.chain.transmit(signal, real), real, last, external, n)
    c.log.clear()
    out = c.chain.transmit(signal, real)
    vc.prove("every transmission propagates anew", len(c.log) == len(c.needed(last)))


def received(vc, c, n):
    last = [b for b, block in enumerate(c.blocks) if isinstance(block, Sink)]
    x = [(b, q) for b, block in enumerate(c.blocks) if not isinstance(block, Source)
         for q in range(block.num_input_ports) if (b, q) not in c.feeds]
    s = vc.array("signal", (len(x), n), "c")
    external = {port: s[i] for i, port in enumerate(x)}
    real = c.chain.realize(RATE, 1, FC)
    judge(vc, c, c.chain.receive(DenseSignal.FromNDArray(s, RATE, 1.0), real), real, last, external, n)


@contract("C21", "transmission through cascaded and parallel blocks", n=60, limit=90)
def transmission(vc):
    n = vc.int("samples", 1, cap=6)
    form = vc.choice("form", ["cascade", "diamond", "fan out", "fan out to one block", "two sources", "local oscillator"])
    swap = vc.choice("order of the ports", [False, True])
    if form == "cascade":
        c = Chain([(Source, 2, 3), (Probe, 3, 2), (Probe, 2, 2)])
        ports = vc.choice("ports", [([0, 1, 2], [0, 1, 2]), ([2, 0, 1], [0, 1, 2]), ([0, 1, 2], [1, 2, 0])])
        c.connect(0, ports[0], 1, ports[1], swap)
        c.connect(1, [0, 1], 2, [1, 0], swap)
        last = [2]
    elif form == "diamond":
        c = Chain([(Source, 1, 2), (Probe, 1, 1), (Probe, 1, 2), (Probe, 3, 2)])
        c.connect(0, [1], 1, [0], swap)
        c.connect(0, [0], 2, [0])
        c.connect(1, [0], 3, [1])
        c.connect(2, [1, 0], 3, [0, 2], swap)
        last = [3]
    elif form == "fan out":
        c = Chain([(Source, 1, 1), (Probe, 1, 1), (Probe, 1, 2)])
        c.connect(0, [0], 2, [0], swap)
        c.connect(0, [0], 1, [0])
        last = [1, 2]
    elif form == "fan out to one block":
        c = Chain([(Source, 1, 1), (Probe, 2, 2)])
        c.connect(0, [0], 1, [0], swap)
        c.connect(0, [0], 1, [1], swap)
        last = [1]
    elif form == "two sources":
        c = Chain([(Source, 2, 1), (Source, 1, 2), (Probe, 3, 1)])
        c.connect(0, [0], 2, [vc.choice("port", [0, 2])], swap)
        free = [q for q in range(3) if (2, q) not in c.feeds]
        c.connect(1, [1, 0], 2, free, swap)
        last = [2]
    else:
        c = Chain([(Probe, 0, 1), (Source, 1, 1), (Probe, 2, 1)])
        c.connect(1, [0], 2, [0], swap)
        c.connect(0, [0], 2, [1], swap)
        last = [2]
    transmitted(vc, c, last, n)


@contract("C21", "several connections of two blocks", n=60, limit=90)
def repeated(vc):
    n = vc.int("samples", 1, cap=6)
    c = Chain([(Source, 2, 3), (Probe, 3, 1)])
    order = vc.choice("order", [[0, 1, 2], [2, 0, 1], [1, 2, 0]])
    if vc.choice("first", ["one", "two"]) == "one":
        c.connect(0, [order[0]], 1, [0])
        c.connect(0, order[1:], 1, [1, 2])
    else:
        c.connect(0, order[:2], 1, [2, 0])
        c.connect(0, [order[2]], 1, [1])
    transmitted(vc, c, [1], n)


@contract("C21", "reception through cascaded and parallel blocks", n=60, limit=90)
def reception(vc):
    n = vc.int("samples", 1, cap=6)
    form = vc.choice("form", ["cascade", "two sinks", "partially open"])
    if form == "cascade":
        c = Chain([(Probe, 2, 2), (Probe, 2, 3), (Sink, 3, 3)])
        c.connect(0, [0, 1], 1, vc.choice("ports", [[0, 1], [1, 0]]))
        c.connect(1, [2, 0, 1], 2, [0, 1, 2])
    elif form == "two sinks":
        c = Chain([(Probe, 2, 2), (Sink, 1, 1), (Sink, 2, 2)])
        c.connect(0, [0], 1, [0])
        c.connect(0, [1, 0], 2, [0, 1])
    else:
        c = Chain([(Probe, 0, 1), (Probe, 1, 1), (Probe, 3, 2), (Sink, 2, 2)])
        c.connect(0, [0], 2, [vc.choice("port", [0, 1, 2])])
        free = [q for q in range(3) if (2, q) not in c.feeds]
        c.connect(1, [0], 2, free[:1])
        c.connect(2, [1, 0], 3, [0, 1])
    received(vc, c, n)


@contract("C21", "invalid connections change nothing", n=60, limit=60)
def invalid(vc):
    n = vc.int("samples", 1, cap=4)
    c = Chain([(Source, 2, 2), (Probe, 2, 2), (Probe, 1, 1)])
    c.connect(0, [0, 1], 1, [0, 1])
    a, b, d = c.refs
    port = RFBlockPortReference
    wrong = {
        "two inputs": (port(b, [0], IN), port(d, [0], IN)),
        "two outputs": (port(a, [0], OUT), port(b, [0], OUT)),
        "different numbers of ports": (port(b, [0, 1], OUT), port(d, [0], IN)),
        "no such output": (port(b, [2], OUT), port(d, [0], IN)),
        "no such input": (port(b, [0], OUT), port(d, [1], IN)),
        "negative output": (port(b, [-1], OUT), port(d, [0], IN)),
        "negative input": (port(d, [-1], IN), port(b, [0], OUT)),
        "connected input": (port(a, [0], OUT), port(b, [1], IN)),
        "partially connected inputs": (port(d, [0], OUT), port(b, [0], IN)),
    }
    what = vc.choice("connection", sorted(wrong))
    vc.raises("rejected", ValueError, lambda: c.chain.connect(*wrong[what]))
    vc.prove("no port is taken", d.open_input_ports == [0] and b.open_input_ports == []
             and d.num_connected_output_ports == 0 and b.num_connected_output_ports == 0)
    if vc.choice("afterwards", ["as it was", "connected properly"]) == "as it was":
        transmitted(vc, c, [1, 2], n)
    else:
        c.connect(1, [1], 2, [0])
        transmitted(vc, c, [1, 2], n)


@bounded("C21", "random chains", n=250, bound="250 random acyclic chains of up to 7 blocks of up to 3 ports")
def random_chains(vc):
    rng = vc.rng
    m = int(rng.integers(2, 8))
    kinds = [(Source, int(rng.integers(1, 3)), int(rng.integers(1, 4)))]
    kinds += [(Probe, int(rng.integers(0 if rng.uniform() < 0.2 else 1, 4)), int(rng.integers(1, 4))) for _ in range(m - 1)]
    c = Chain(kinds)
    for b in range(1, m):
        for q in rng.permutation(kinds[b][1]):
            if rng.uniform() < 0.85:
                a = int(rng.integers(0, b))
                c.connect(a, [int(rng.integers(0, kinds[a][2]))], b, [int(q)], bool(rng.integers(0, 2)))
    used = list(c.feeds.values())
    last = [b for b in range(m) if not set((b, p) for p in range(kinds[b][2])) <= set(used)]
    # Blocks with open output ports, other output ports of which feed several ports, are left out
    vc.assume(all(sum(a == b for a, _ in used) < kinds[b][2] for b in last))
    transmitted(vc, c, last, int(rng.integers(1, 9)))
