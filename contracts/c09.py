"""C09: sparse and dense signal models describe the same samples."""
import numpy as np
from pyvc.api import contract, bounded
from hermespy.core.signal_model import DenseSignal, SparseSignal, Signal, SignalBlock

META = ("sampling_rate", "carrier_frequency", "noise_power", "delay")


class Fix:
    """A sparse signal of arbitrary blocks at arbitrary places and the samples it stands for."""

    def __init__(self, vc, streams, blocks, name="x", rate=None):
        self.vc, self.m = vc, streams
        self.off, self.len, self.x = [], [], []
        pos = 0
        for b in range(blocks):
            pos = pos + vc.int(f"{name}gap{b}", 0, cap=3)
            n = vc.int(f"{name}length{b}", 1, cap=4)
            self.off.append(pos), self.len.append(n), self.x.append(vc.array(f"{name}{b}", (streams, n), "c"))
            pos = pos + n
        self.n = pos
        self.rate = vc.real(f"{name}rate", 0.5, 10.0) if rate is None else rate
        self.fc, self.noise, self.delay = vc.real(f"{name}fc", 0.0, 9.0), vc.real(f"{name}noise", 0.0, 2.0), vc.real(
            f"{name}delay", 0.0, 3.0)
        self.signal = SparseSignal([SignalBlock(streams, n, o, x.tobytes()) for o, n, x in zip(self.off, self.len, self.x)],
                                   self.rate, self.fc, self.noise, self.delay)

    def at(self, i, k):
        """The sample k of stream i."""
        for o, n, x in zip(self.off, self.len, self.x):
            if o <= k and k < o + n:
                return x[i, k - o] + 0
        return 0j


def ordered(vc, s, label="blocks are sorted and disjoint"):
    bs = s.blocks
    vc.prove(label, vc.all(*[a.end <= b.offset for a, b in zip(bs[:-1], bs[1:])], *[b.offset >= 0 for b in bs]))


def meta(vc, s, f, label="signal parameters are kept"):
    vc.prove(label, vc.all(s.sampling_rate == f.rate, s.carrier_frequency == f.fc, s.delay == f.delay))


def sample(vc, s, i, k, n):
    """Sample k of stream i of a signal standing for n samples, of which trailing zeros need not be stored."""
    d = s.to_dense().view(np.ndarray)
    vc.prove("not longer than the samples described", s.num_samples <= n)
    if k < s.num_samples:
        return d[i, k] + 0
    return 0j


for B in (1, 2, 3):
    @contract("C09", f"sparse signal of {B} blocks: dense form", n=60, limit=100)
    def dense_form(vc, B=B):
        f = Fix(vc, 2, B)
        i, k = vc.choice("stream", [0, 1]), vc.index("sample", f.n)
        e = f.at(i, k)
        s = f.signal
        vc.prove("number of samples", vc.all(s.num_samples == f.n, s.num_streams == 2, s.num_blocks == B))
        d = s.to_dense()
        vc.prove("shape of the dense form", vc.all(d.shape[0] == 2, d.shape[1] == f.n))
        vc.eq("samples of the dense form", d.view(np.ndarray)[i, k], e)
        meta(vc, d, f)
        vc.prove("noise power is kept", d.noise_power == f.noise)

    @contract("C09", f"sparse signal of {B} blocks: scaling", n=60, limit=100)
    def scaling(vc, B=B):
        f = Fix(vc, 2, B)
        i, k = vc.choice("stream", [0, 1]), vc.index("sample", f.n)
        c = vc.complex("factor")
        e = f.at(i, k)
        r = f.signal * c
        vc.prove("number of samples", r.num_samples == f.n)
        vc.eq("each sample is scaled", r.to_dense().view(np.ndarray)[i, k], c * e)
        vc.eq("the scaled signal is untouched", f.signal.to_dense().view(np.ndarray)[i, k], e)
        ordered(vc, r)
        meta(vc, r, f)

    @contract("C09", f"sparse signal of {B} blocks: copies are independent", n=60, limit=100)
    def copies(vc, B=B):
        f = Fix(vc, 2, B)
        i, k = vc.choice("stream", [0, 1]), vc.index("sample", f.n)
        e = f.at(i, k)
        r = f.signal.copy()
        for b in r.blocks:
            b[:, :] = vc.complex("other")
            b.offset = b.offset + 1
        vc.eq("the copied signal is untouched", f.signal.to_dense().view(np.ndarray)[i, k], e)
        meta(vc, r, f)
        vc.prove("noise power is kept", r.noise_power == f.noise)

    @contract("C09", f"sparse signal of {B} blocks: reading regions", n=150, limit=150)
    def reading(vc, B=B):
        f = Fix(vc, 2, B)
        a = vc.int("start", 0, cap=14)
        vc.assume(a < f.n)
        n = vc.int("count", 1, cap=14)
        vc.assume(a + n <= f.n)
        sel, rows = vc.choice("streams", [(slice(None), [0, 1]), (slice(1, 2), [1]), ([1, 0], [1, 0]), ([0], [0])])
        i, k = vc.choice("stream", range(len(rows))), vc.index("sample", n)
        e = f.at(rows[i], a + k)
        r = f.signal[sel, a:a + n]
        ordered(vc, r)
        meta(vc, r, f)
        if r.num_blocks > 0:
            vc.prove("number of streams", r.num_streams == len(rows))
            vc.eq("samples of the region", sample(vc, r, i, k, n), e)
        else:
            vc.eq("samples of an empty region", e, 0)

    @contract("C09", f"sparse signal of {B} blocks: reading every other sample", n=150, limit=150)
    def stepping(vc, B=B):
        f = Fix(vc, 2, B)
        a = vc.int("start", 0, cap=14)
        vc.assume(a < f.n)
        n = vc.int("count", 1, cap=14)
        vc.assume(a + n <= f.n)
        step = vc.choice("step", [2, 3])
        k = vc.int("sample", 0, cap=14)
        vc.assume(k * step < n)
        e = f.at(1, a + k * step)
        r = f.signal[:, a:a + n:step]
        ordered(vc, r)
        if r.num_blocks > 0:
            vc.eq("every step-th sample of the region", sample(vc, r, 1, k, n), e)
        else:
            vc.eq("samples of an empty region", e, 0)

    @contract("C09", f"sparse signal of {B} blocks: appending samples", n=150, limit=150)
    def appending(vc, B=B):
        f = Fix(vc, 2, B)
        how = vc.choice("appended", ["array", "dense", "sparse"])
        g = Fix(vc, 2, 2 if how == "sparse" else 1, "y", f.rate)
        if how == "sparse":
            value = g.signal
        elif how == "dense":
            value = g.signal.to_dense()
        else:
            value = g.signal.to_dense().view(np.ndarray)
        i, k = vc.choice("stream", [0, 1]), vc.index("sample", f.n + g.n)
        e = f.at(i, k) if k < f.n else g.at(i, k - f.n)
        r = f.signal.append_samples(value)
        ordered(vc, r)
        meta(vc, r, f)
        vc.eq("samples of both signals follow each other", sample(vc, r, i, k, f.n + g.n), e)
        if k < f.n:
            vc.eq("the first signal is untouched", f.signal.to_dense().view(np.ndarray)[i, k], e)
        elif how == "sparse":
            vc.eq("the appended signal is untouched", g.signal.to_dense().view(np.ndarray)[i, k - f.n], e)


def dense(vc, streams, name="x", rate=None, n=None):
    n = vc.int(f"{name}samples", 1, cap=8) if n is None else n
    x = vc.array(name, (streams, n), "c")
    rate = vc.real(f"{name}rate", 0.5, 10.0) if rate is None else rate
    fc, noise, delay = vc.real(f"{name}fc", 0.0, 9.0), vc.real(f"{name}noise", 0.0, 2.0), vc.real(f"{name}delay", 0.0, 3.0)
    s = DenseSignal.FromNDArray(x, rate, fc, noise, delay)

    class F:
        pass
    f = F()
    f.n, f.x, f.rate, f.fc, f.noise, f.delay, f.signal = n, x, rate, fc, noise, delay, s
    return f


@contract("C09", "dense signal: reading and scaling", n=100, limit=60)
def dense_reading(vc):
    f = dense(vc, 3)
    a, b = vc.int("start", 0, cap=8), vc.int("stop", 0, cap=8)
    vc.assume(a <= b)
    vc.assume(b <= f.n)
    sel, rows = vc.choice("streams", [(slice(None), [0, 1, 2]), (slice(1, 3), [1, 2]), ([2, 0], [2, 0]), (1, [1])])
    k = vc.int("sample", 0, cap=8)
    vc.assume(k < b - a)
    i = vc.choice("stream", range(len(rows)))
    e = f.x[rows[i], a + k] + 0
    r = f.signal[sel, a:b]
    vc.prove("shape", vc.all(r.num_streams == len(rows), r.num_samples == b - a))
    vc.eq("samples of the region", r.view(np.ndarray)[i, k], e)
    meta(vc, r, f)
    c = vc.complex("factor")
    vc.eq("each sample is scaled", (f.signal * c).view(np.ndarray)[rows[i], a + k], c * e)
    vc.eq("the signal is untouched", f.signal.view(np.ndarray)[rows[i], a + k], e)
    vc.eq("one block at offset zero", f.signal.blocks[0].view(np.ndarray)[rows[i], a + k], e)
    vc.prove("block structure", vc.all(f.signal.num_blocks == 1, f.signal.block_offsets == [0], f.signal.blocks[0].offset == 0))


@contract("C09", "dense signal: writing", n=100, limit=60)
def dense_writing(vc):
    f = dense(vc, 3)
    a, b = vc.int("start", 0, cap=8), vc.int("stop", 0, cap=8)
    vc.assume(a <= b)
    vc.assume(b <= f.n)
    sel, rows = vc.choice("streams", [(slice(None), [0, 1, 2]), (slice(1, 3), [1, 2]), ([2, 0], [2, 0]), (1, [1])])
    v = vc.array("v", (len(rows), b - a), "c")
    i, k = vc.choice("stream", range(3)), vc.index("sample", f.n)
    s = f.signal
    old = s.view(np.ndarray)[i, k] + 0
    s[sel, a:b] = v
    inside = False
    if a <= k:
        if k < b:
            inside = i in rows
    if inside:
        vc.eq("written samples", s.view(np.ndarray)[i, k], v[rows.index(i), k - a])
    else:
        vc.eq("samples outside the region are untouched", s.view(np.ndarray)[i, k], old)
    vc.eq("the array it was created from is untouched", f.x[i, k], old)


for how in ("array", "dense", "sparse"):
    @contract("C09", f"dense signal: appending {how} samples", n=100, limit=100)
    def dense_append(vc, how=how):
        f = dense(vc, 2)
        g = Fix(vc, 2, 2 if how == "sparse" else 1, "y", f.rate)
        value = g.signal if how == "sparse" else g.signal.to_dense() if how == "dense" else g.signal.to_dense().view(np.ndarray)
        i, k = vc.choice("stream", [0, 1]), vc.index("sample", f.n + g.n)
        e = f.x[i, k] if k < f.n else g.at(i, k - f.n)
        r = f.signal.append_samples(value)
        vc.prove("number of samples", vc.all(r.num_samples == f.n + g.n, r.num_streams == 2))
        vc.eq("samples of both signals follow each other", r.view(np.ndarray)[i, k], e)
        meta(vc, r, f)
        if k < f.n:
            vc.eq("the first signal is untouched", f.signal.view(np.ndarray)[i, k], e)

    @contract("C09", f"dense signal: appending {how} streams", n=100, limit=100)
    def dense_streams(vc, how=how):
        m = vc.choice("streams", [1, 2])
        g = Fix(vc, m, 2 if how == "sparse" else 1, "y")
        f = dense(vc, 2, rate=g.rate, n=g.n)
        value = g.signal if how == "sparse" else g.signal.to_dense() if how == "dense" else g.signal.to_dense().view(np.ndarray)
        i, k = vc.choice("stream", range(2 + m)), vc.index("sample", f.n)
        e = f.x[i, k] if i < 2 else g.at(i - 2, k)
        r = f.signal.append_streams(value)
        vc.prove("shape", vc.all(r.num_samples == f.n, r.num_streams == 2 + m))
        vc.eq("streams of both signals below each other", r.view(np.ndarray)[i, k], e)
        meta(vc, r, f)


@contract("C09", "signal blocks: energy and power", n=60, limit=60)
def block_energy(vc):
    f = dense(vc, 2)
    i = vc.choice("stream", [0, 1])
    E = np.sum(f.x[i].real ** 2 + f.x[i].imag ** 2)
    vc.eq("energy is the sum of squared magnitudes", f.signal.energy[i], E)
    vc.eq("power is the mean squared magnitude", f.signal.power[i] * f.n, E)


@contract("C09", "sparse signals: energy and power", n=60, limit=60)
def sparse_energy(vc):
    B = vc.choice("blocks", [1, 2, 3])
    f = Fix(vc, 2, B)
    i = vc.choice("stream", [0, 1])
    E = 0.0
    for x in f.x:
        E = E + np.sum(x[i].real ** 2 + x[i].imag ** 2)
    vc.eq("energy is the sum of all blocks' squared magnitudes", f.signal.energy[i], E)
    n = f.len[0]
    for m in f.len[1:]:
        n = n + m
    vc.eq("power is the energy per stored sample", f.signal.power[i] * n, E)


# run-time contracts: data-dependent block structures

def layout(vc, m, n, rng):
    """A dense matrix and a sparse signal of it."""
    D = np.zeros((m, n), complex)
    blocks, pos = [], int(rng.integers(0, 3))
    while pos < n:
        L = min(int(rng.integers(1, 4)), n - pos)
        v = (rng.integers(-2, 3, (m, L)) + 1j * rng.integers(-1, 2, (m, L))).astype(complex)
        D[:, pos:pos + L] = v
        blocks.append(SignalBlock(m, L, pos, v.tobytes()))
        pos += L + int(rng.integers(0, 3))
    if not blocks:
        v = np.ones((m, n), complex)
        D, blocks = v.copy(), [SignalBlock(m, n, 0, v.tobytes())]
    n = blocks[-1].end
    return D[:, :n], SparseSignal(blocks, 2.0, 1.0, 0.5, 0.0)


def samples(s, shape):
    a = np.array(s.to_dense().view(np.ndarray))
    return np.pad(a, ((0, 0), (0, max(0, shape[1] - a.shape[1]))))


def same(vc, name, s, D):
    a = samples(s, D.shape)
    vc.prove(name, a.shape == D.shape and np.array_equal(a, D), f"{a} instead of {D}")
    bs = s.blocks
    vc.prove("blocks are sorted and disjoint", all(x.end <= y.offset for x, y in zip(bs, bs[1:])),
             [(b.offset, b.end) for b in bs])


@bounded("C09", "sparsification", n=400, bound="up to 3 streams of up to 16 samples")
def sparsify(vc):
    m, n = int(vc.rng.integers(1, 4)), int(vc.rng.integers(1, 17))
    D = vc.rng.integers(-1, 2, (m, n)) * vc.rng.integers(0, 2, n)[None, :] + 1j * vc.rng.integers(-1, 2, (m, n)) * \
        vc.rng.integers(0, 2, n)[None, :]
    for s in (SparseSignal(D, 2.0), SparseSignal(DenseSignal.FromNDArray(D, 2.0), 2.0)):
        same(vc, "samples of a sparsified signal", s, D)
        vc.prove("number of streams of a sparsified signal", s.num_streams == m)


@bounded("C09", "sequences of operations", n=700, bound="up to 12 operations on up to 4 streams of up to 40 samples")
def sequences(vc):
    rng = vc.rng
    m, n = int(rng.integers(1, 4)), int(rng.integers(1, 14))
    D, s = layout(vc, m, n, rng)
    for step in range(int(rng.integers(1, 13))):
        D = D[:, :s.num_samples]  # trailing zeros need not be stored
        m, n = D.shape
        d = DenseSignal.FromNDArray(D, 2.0, 1.0, 0.5, 0.0)
        if n < 1:
            break
        a = int(rng.integers(0, n))
        b = int(rng.integers(a + 1, n + 1))
        i = int(rng.integers(0, m))
        j = int(rng.integers(i + 1, m + 1))
        if rng.integers(2):
            i, j = 0, m
        op = ["write", "scalar", "writesig", "samples", "streams", "scale", "read", "energy"][int(rng.integers(0, 8))]
        if op == "write" or op == "scalar":
            v = complex(rng.integers(-1, 2)) if op == "scalar" else (rng.integers(-1, 2, (j - i, b - a)) + 0j)
            s[i:j, a:b] = v
            d[i:j, a:b] = v
            D = D.copy()
            D[i:j, a:b] = v
            same(vc, "samples after writing", s, D)
            same(vc, "samples after writing to the dense form", d, D)
        elif op == "writesig":
            V, v = layout(vc, j - i, b - a, rng)
            b = a + V.shape[1]
            s[i:j, a:b] = v if rng.integers(2) else v.to_dense()
            D = D.copy()
            D[i:j, a:b] = V
            same(vc, "samples after writing a signal", s, D)
        elif op == "samples" and n < 30:
            V, v = layout(vc, m, int(rng.integers(1, 6)), rng)
            k = int(rng.integers(0, 3))
            w = (v, v.to_dense(), V.copy())[k]
            before = s
            s, d2 = s.append_samples(w), d.append_samples(w)
            same(vc, "the extended signal is untouched", before, D)
            D = np.hstack([D, V])
            same(vc, "samples after appending samples", s, D)
            same(vc, "samples after appending samples to the dense form", d2, D)
            same(vc, "appended samples are untouched", v, V)
        elif op == "streams" and m < 4:
            V = (rng.integers(-1, 2, (int(rng.integers(1, 3)), n)) * rng.integers(0, 2, n)[None, :] + 0j)
            v = SparseSignal(V, 2.0)
            k = int(rng.integers(0, 3))
            w = (v, DenseSignal.FromNDArray(V, 2.0), V.copy())[k]
            before = s
            if not np.any(V):
                continue
            s, d2 = s.append_streams(w), d.append_streams(w)
            same(vc, "the extended signal is untouched", before, D)
            D = np.vstack([D, V])
            same(vc, "samples after appending streams", s, D)
            same(vc, "samples after appending streams to the dense form", d2, D)
        elif op == "scale":
            s, D = s * 2j, D * 2j
            same(vc, "samples after scaling", s, D)
            s, D = s * -.5j, D * -.5j
        elif op == "read":
            st = int(rng.integers(1, 4))
            lo, hi = ((a, b), (a - n, b), (a, b - n - 0 if b < n else n), (None, None))[int(rng.integers(0, 4))]
            same(vc, "samples of a region", s[i:j, lo:hi:st], D[i:j, lo:hi:st])
            same(vc, "samples of a region of the dense form", d[i:j, lo:hi:st], D[i:j, lo:hi:st])
            same(vc, "samples after reading", s, D)
        else:
            E = (abs(D) ** 2).sum(1)
            vc.prove("energy", np.allclose(s.energy, E) and np.allclose(d.energy, E), f"{s.energy} {d.energy} {E}")
            L = sum(b.num_samples for b in s.blocks)
            vc.prove("power", np.allclose(s.power * L, E) and np.allclose(d.power * n, E), f"{s.power} {d.power} {E}")
