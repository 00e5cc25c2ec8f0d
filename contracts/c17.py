"""C17: error and throughput metrics count exactly the differing bits, blocks and frames."""
import numpy as np
from pyvc.api import contract, bounded
from hermespy.core.hooks import Hookable
from hermespy.modem import (BitErrorEvaluator, BlockErrorEvaluator, FrameErrorEvaluator, ThroughputEvaluator,
                            CommunicationTransmission, CommunicationReception)
from hermespy.modem.evaluators import ThroughputEvaluation, EVMEvaluation


class Modem:
    """Ghost modem: exposes the transmit and receive events the evaluators subscribe to."""

    def __init__(self):
        self.tx, self.rx = Hookable(), Hookable()

    def add_transmit_callback(self, cb):
        return self.tx.add_callback(cb)

    def add_receive_callback(self, cb):
        return self.rx.add_callback(cb)


class Frame:
    def __init__(self, bits, block_size, signal=None):
        self.bits = self.decoded_bits = bits
        self.bit_block_size = block_size
        self.signal = signal


class Signal:
    def __init__(self, duration):
        self.duration = duration


def setup(cls, tx_frames, rx_frames):
    a, b = Modem(), Modem()
    ev = cls(a, b)
    a.tx.notify(CommunicationTransmission(None, tx_frames))
    b.rx.notify(CommunicationReception(None, rx_frames))
    return ev


def count(vc, prefix, sym):
    return vc.choice(prefix, sym) if vc.symbolic else vc.int(prefix, 0, 4, cap=4)


def similar(vc, name, tx, n):
    """Received bits: a copy of the transmitted ones with few flips (concrete runs), arbitrary bits in proofs."""
    if vc.symbolic or vc._given(name) or tx is None or vc.rng.integers(0, 3) == 0:
        return vc.bits(name, n)
    r = np.resize(tx, n) if tx.size else np.zeros(n, dtype=int)
    k = int(vc.rng.integers(0, 3))
    if n:
        r = r.copy()
        for _ in range(k):
            r[vc.rng.integers(0, n)] ^= 1
    return vc._rec(name, r)


@contract("C17", "bit error rate", n=400, limit=60)
def ber(vc):
    nt, nr = count(vc, "tx frames", [1, 2]), count(vc, "rx frames", [1, 2])
    T = [vc.bits(f"t{j}", vc.int(f"nt{j}", 1, cap=12)) for j in range(nt)]
    R = [similar(vc, f"r{j}", T[j] if j < nt else None, T[j].size if j < nt and not vc.symbolic and
                 vc.rng.integers(0, 2) else vc.int(f"nr{j}", 1, cap=12)) for j in range(nr)]
    ev = setup(BitErrorEvaluator, [Frame(x, 1) for x in T], [Frame(x, 1) for x in R])
    e = ev.evaluate().evaluation
    LT, LR = sum(x.size for x in T), sum(x.size for x in R)
    if not vc.symbolic and LT == LR == 0:
        return
    vc.prove("one indicator per bit", vc.all(vc.any(e.size == LT, e.size == LR), e.size >= LT, e.size >= LR))

    def at(X, i):
        """Bit i of the concatenated frames, zero beyond."""
        off = 0
        for x in X:
            if off <= i < off + x.size:
                return x[i - off]
            off = off + x.size
        return 0
    i = vc.index("i", e.size)
    vc.prove("a position counts iff transmitted and received bit differ",
             (e[i] != 0) == (at(T, i) != at(R, i)))
    vc.prove("indicators are zero or one", vc.any(e[i] == 0, e[i] == 1))
    ber = ev.evaluate().artifact().to_scalar()
    vc.eq("the rate is the share of differing positions", ber * e.size, vc.sum(e.size, lambda k: e[k]))
    vc.le("rate is non-negative", 0, ber)
    vc.le("rate is at most one", ber, 1)


@contract("C17", "bit error rate of equal streams", n=150)
def ber_zero(vc):
    N = vc.int("N", 1, cap=20)
    t = vc.bits("t", N)
    r = similar(vc, "r", t, N)
    ev = setup(BitErrorEvaluator, [Frame(t, 1)], [Frame(r, 1)])
    rate = ev.evaluate().artifact().to_scalar()
    if vc.choice("case", [0, 1]):
        ev = setup(BitErrorEvaluator, [Frame(t, 1)], [Frame(t.copy(), 1)])
        vc.eq("zero when everything matches", ev.evaluate().artifact().to_scalar(), 0)
    else:
        i = vc.index("i", N)
        vc.assume(t[i] != r[i])
        vc.prove("positive when a position differs", rate > 0)
        vc.le("at least one position", 1, rate * N)


@contract("C17", "block error rate", n=500, limit=60)
def bler(vc):
    nt, nr = count(vc, "tx frames", [1, 2]), count(vc, "rx frames", [1, 2])
    K = vc.int("K", 1, cap=4)
    BT = [vc.int(f"bt{j}", 1, cap=4) for j in range(nt)]
    T = [vc.bits(f"t{j}", b * K) for j, b in enumerate(BT)]
    BR = [BT[j] if j < nt and (vc.bool(f"same{j}")) else vc.int(f"br{j}", 1, cap=4) for j in range(nr)]
    R = [similar(vc, f"r{j}", T[j] if j < nt else None, b * K) for j, b in enumerate(BR)]
    if not nt and not nr:
        return
    ev = setup(BlockErrorEvaluator, [Frame(x, K) for x in T], [Frame(x, K) for x in R])
    e = ev.evaluate().evaluation
    f = vc.choice("frame", list(range(max(nt, nr))))
    top = [max(BT[j] if j < nt else 0, BR[j] if j < nr else 0) for j in range(max(nt, nr))]
    vc.prove("one indicator per block", e.size == sum(top))
    b = vc.index("b", top[f])
    v = e[sum(top[:f]) + b]
    if f >= nt or f >= nr:
        vc.prove("blocks of missing frames are errors", v == True)  # noqa: E712
        return
    if b >= BT[f] or b >= BR[f]:
        vc.prove("missing blocks are errors", v == True)  # noqa: E712
        return
    if v:
        if not vc.symbolic:
            vc.prove("a block in error differs somewhere", np.any(T[f][b * K:(b + 1) * K] != R[f][b * K:(b + 1) * K]))
    else:
        k = vc.index("k", K)
        vc.eq("an error-free block matches in every bit", T[f][b * K + k], R[f][b * K + k])


@bounded("C17", "block error rate value", n=300)
def bler_value(vc):
    nt, nr = vc.int("tx frames", 0, 4), vc.int("rx frames", 0, 4)
    K = vc.int("K", 1, cap=4)
    T = [vc.bits(f"t{j}", vc.int(f"bt{j}", 1, cap=4) * K) for j in range(nt)]
    R = [similar(vc, f"r{j}", T[j] if j < nt else None, T[j].size if j < nt else K) for j in range(nr)]
    vc.assume(nt + nr > 0)
    rate = setup(BlockErrorEvaluator, [Frame(x, K) for x in T], [Frame(x, K) for x in R]).evaluate().artifact().to_scalar()
    tot = err = 0
    for j in range(max(nt, nr)):
        for b in range((T[j] if j < nt else R[j]).size // K):
            tot += 1
            err += j >= min(nt, nr) or bool(np.any(T[j][b * K:b * K + K] != R[j][b * K:b * K + K]))
    vc.eq("share of blocks with at least one difference", rate, err / tot)


@contract("C17", "frame error rate", n=500, limit=60)
def fer(vc):
    nt, nr = count(vc, "tx frames", [1, 2, 3]), count(vc, "rx frames", [1, 2])
    T = [vc.bits(f"t{j}", vc.int(f"nt{j}", 1, cap=6)) for j in range(nt)]
    R = [similar(vc, f"r{j}", T[j] if j < nt else None, T[j].size if j < nt and vc.bool(f"same{j}")
                 else vc.int(f"nr{j}", 1, cap=6)) for j in range(nr)]
    if not nt and not nr:
        return
    ev = setup(FrameErrorEvaluator, [Frame(x, 1) for x in T], [Frame(x, 1) for x in R])
    e = ev.evaluate().evaluation
    vc.prove("one indicator per frame", e.size == max(nt, nr))
    f = vc.choice("frame", list(range(max(nt, nr))))
    if f >= nt or f >= nr:
        vc.prove("missing frames are errors", e[f] == True)  # noqa: E712
    elif T[f].size != R[f].size:
        vc.prove("frames of different length are errors", e[f] == True)  # noqa: E712
    elif not e[f]:
        i = vc.index("i", T[f].size)
        vc.eq("an error-free frame matches in every bit", T[f][i], R[f][i])
    if vc.symbolic:
        return
    rate = ev.evaluate().artifact().to_scalar()
    err = sum(j >= nt or j >= nr or not np.array_equal(T[j], R[j]) for j in range(max(nt, nr)))
    vc.eq("share of frames with at least one difference", rate, err / max(nt, nr))


@contract("C17", "identical streams are free of errors", n=150)
def identical(vc):
    """Frames and blocks received as transmitted are not errors, whatever happens to the other frames."""
    n = vc.choice("frames", [1, 2])
    cls = vc.choice("evaluator", [BitErrorEvaluator, BlockErrorEvaluator, FrameErrorEvaluator])
    K, f = vc.int("K", 1, cap=3), vc.choice("frame", [0, 1])
    vc.assume(f < n)
    B = [vc.int(f"B{j}", 1, cap=3) for j in range(n)]
    T = [vc.bits(f"t{j}", B[j] * K) for j in range(n)]
    R = [T[j].copy() if j == f else vc.bits(f"r{j}", B[j] * K) for j in range(n)]
    e = setup(cls, [Frame(x, K) for x in T], [Frame(x, K) for x in R]).evaluate().evaluation
    if cls is FrameErrorEvaluator:
        vc.prove("the identical frame is no error", e[f] == False)  # noqa: E712
    else:
        w = B if cls is BlockErrorEvaluator else [b * K for b in B]
        vc.prove("no indicator of the identical frame is set", e[sum(w[:f]) + vc.index("i", w[f])] == 0)


@contract("C17", "throughput", n=400, limit=60)
def throughput(vc):
    """Bits of the error-free frames over the transmitted frame time."""
    n = vc.choice("frames", [1, 2]) if vc.symbolic else vc.int("frames", 1, 4)
    N = vc.int("N", 1, cap=6)
    dur = vc.real("duration", 0, lo_open=True)
    T = [vc.bits(f"t{j}", N) for j in range(n)]
    R = [similar(vc, f"r{j}", T[j], N) for j in range(n)]
    sig = Signal(dur)
    ev = setup(ThroughputEvaluator, [Frame(x, N, sig) for x in T], [Frame(x, N, sig) for x in R])
    errors = setup(FrameErrorEvaluator, [Frame(x, 1) for x in T], [Frame(x, 1) for x in R]).evaluate().evaluation
    ok = sum(0 if errors[f] else 1 for f in range(n))
    if not vc.symbolic:
        ok = sum(bool(np.array_equal(a, b)) for a, b in zip(T, R))
    rate = ev.evaluate().artifact().to_scalar()
    vc.eq("throughput times transmitted time is the number of correct bits", rate * (n * dur), ok * N)


@contract("C17", "throughput of frame errors", n=200)
def throughput_errors(vc):
    F = vc.int("F", 1, cap=8)
    e = vc.array("errors", (F,), "b")
    bits, dur = vc.int("bits", 0, cap=100), vc.real("duration", 0, lo_open=True)
    rate = ThroughputEvaluation(bits, dur, e).artifact().to_scalar()
    vc.eq("correct bits per transmitted time", rate * (F * dur), vc.sum(F, lambda k: vc.ite(e[k], 0, 1)) * bits)


@contract("C17", "no frames", n=20)
def throughput_none(vc):
    ev = setup(ThroughputEvaluator, [Frame(vc.bits("t", 3), 1, Signal(1.))], [])
    a, b = Modem(), Modem()
    ev = ThroughputEvaluator(a, b)
    a.tx.notify(CommunicationTransmission(None, [Frame(vc.bits("t2", 3), 1, Signal(1.))]))
    b.rx.notify(CommunicationReception(Signal(vc.real("d", 0)), []))
    vc.eq("nothing received, no throughput", ev.evaluate().artifact().to_scalar(), 0)


@contract("C17", "latest exchange counts", n=60)
def latest(vc):
    """Evaluators compare the latest transmission with the latest reception."""
    a, b = Modem(), Modem()
    cls = vc.choice("evaluator", [BitErrorEvaluator, BlockErrorEvaluator, FrameErrorEvaluator])
    ev = cls(a, b)
    N = 4 if not vc.symbolic else vc.int("N", 1)
    old, new = vc.bits("old", N), vc.bits("new", N)
    a.tx.notify(CommunicationTransmission(None, [Frame(old, 1)]))
    b.rx.notify(CommunicationReception(None, [Frame(old, 1)]))
    ev.evaluate()
    a.tx.notify(CommunicationTransmission(None, [Frame(new, 1)]))
    b.rx.notify(CommunicationReception(None, [Frame(new.copy(), 1)]))
    e = ev.evaluate().evaluation
    i = vc.index("i", e.size)
    vc.prove("matching exchange is free of errors", e[i] == 0)


@contract("C17", "error vector magnitude", n=200)
def evm(vc):
    n = vc.int("n", 1, cap=8)
    t, r = vc.array("t", (n,), "c"), vc.array("r", (n,), "c")
    v = EVMEvaluation(t, r).artifact().to_scalar()
    vc.le("non-negative", 0, v)
    vc.eq("root mean square deviation", v * v * n, vc.sum(n, lambda k: abs(t[k] - r[k]) ** 2))
