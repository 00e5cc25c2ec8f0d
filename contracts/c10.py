"""C10: superposition adds samples, aligned in time and streams, and nothing else."""
import numpy as np
from pyvc.api import contract, bounded
from hermespy.core.signal_model import DenseSignal, SparseSignal, Signal, SignalBlock, InterpolationMode
from contracts.c09 import Fix, layout, samples, same

KINDS = ["dense", "sparse"]


def target(vc, streams, name="x", rate=None, fc=None, delay=None):
    n = vc.int(f"{name}samples", 1, cap=8)
    x = vc.array(name, (streams, n), "c")
    noise = vc.real(f"{name}noise", 0.0, 2.0)
    return DenseSignal.FromNDArray(x, rate, fc, noise, delay), x, n


def common(vc):
    return vc.real("rate", 0.5, 10.0), vc.real("carrier", 0.0, 9.0), vc.real("delay", 0.0, 3.0)


def added(vc, kind, streams, rate, fc, delay):
    g = Fix(vc, streams, 2 if kind == "sparse" else 1, "y", rate)
    s = g.signal if kind == "sparse" else g.signal.to_dense()
    s.carrier_frequency, s.delay = fc, delay
    return g, s


def selection(vc, streams):
    return vc.choice("selected streams", [None, [0], [streams - 1], list(range(streams)), list(range(streams))[::-1], []])


for kind in KINDS:
    @contract("C10", f"superimposing a {kind} signal onto a dense one", n=200, limit=120)
    def onto_dense(vc, kind=kind):
        rate, fc, delay = common(vc)
        m = vc.choice("streams", [1, 2, 3])
        s, x, n = target(vc, m, "x", rate, fc, delay)
        g, a = added(vc, kind, m, rate, fc, delay)
        sel = selection(vc, m)
        total = n if g.n <= n else g.n
        i, k = vc.choice("stream", range(m)), vc.index("sample", total)
        e = 0j
        if k < n:
            e = e + x[i, k]
        own = e + 0
        if (sel is None or i in sel) and k < g.n:
            e = e + g.at(i, k)
        r = s.superimpose(a, stream_indices=sel)
        vc.prove("as long as the longer of both signals", vc.all(r.num_samples == total, r.num_streams == m))
        vc.eq("samples of the selected streams are added, all others kept", r.view(np.ndarray)[i, k], e)
        vc.prove("signal parameters are kept", vc.all(r.sampling_rate == rate, r.carrier_frequency == fc, r.delay == delay,
                                                      r.noise_power == s.noise_power))
        if k < g.n:
            vc.eq("the added signal is untouched", a.to_dense().view(np.ndarray)[i, k], g.at(i, k))
        if k < n:
            vc.eq("the array the signal was created from is untouched", x[i, k], own)

    @contract("C10", f"superimposing a delayed {kind} signal onto a dense one", n=200, limit=120)
    def delayed(vc, kind=kind):
        fc = vc.real("carrier", 0.0, 9.0)
        rate = vc.choice("rate", [1.0, 4.0])
        delay = vc.choice("delay", [0.0, 8.0])
        shift = vc.choice("shift in samples", [1, 3] if delay == 0.0 else [-1, -7, 2])
        s, x, n = target(vc, 2, "x", rate, fc, delay)
        g, a = added(vc, kind, 2, rate, fc, delay + shift / rate)
        end = g.n + shift
        total = n if end <= n else end
        i, k = vc.choice("stream", [0, 1]), vc.index("sample", total)
        e = 0j
        if k < n:
            e = e + x[i, k]
        if k - shift >= 0 and k - shift < g.n:
            e = e + g.at(i, k - shift)
        r = s.superimpose(a)
        vc.prove("long enough for both signals", vc.all(r.num_samples == total, r.num_streams == 2))
        vc.eq("samples are added at their points in time", r.view(np.ndarray)[i, k], e)
        vc.prove("delays are kept", vc.all(r.delay == delay, a.delay == delay + shift / rate))
        j = vc.index("sample of the added signal", g.n)
        vc.eq("the added signal is untouched", a.to_dense().view(np.ndarray)[i, j], g.at(i, j))


@contract("C10", "superposition beyond the own streams", n=100, limit=60)
def more_streams(vc):
    rate, fc, delay = common(vc)
    s, x, n = target(vc, 1, "x", rate, fc, delay)
    g, a = added(vc, "dense", 2, rate, fc, delay)
    total = n if g.n <= n else g.n
    i, k = vc.choice("stream", [0, 1]), vc.index("sample", total)
    e = 0j
    if i < 1 and k < n:
        e = e + x[i, k]
    if k < g.n:
        e = e + g.at(i, k)
    r = s.superimpose(a)
    vc.prove("shape", vc.all(r.num_samples == total, r.num_streams == 2))
    vc.eq("samples are added, missing ones are zero", r.view(np.ndarray)[i, k], e)


@contract("C10", "superposition requiring resampling is refused", n=30, limit=60)
def refused(vc):
    rate, fc, delay = common(vc)
    s, x, n = target(vc, 1, "x", rate, fc, delay)
    other = vc.real("other rate", 0.5, 10.0)
    vc.assume(rate != other)
    g, a = added(vc, "dense", 1, other, fc, delay)
    vc.raises("resampling is refused", RuntimeError, lambda: s.superimpose(a, resample=False))
    k = vc.index("sample", n)
    vc.eq("the signal is untouched", s.view(np.ndarray)[0, k], x[0, k])


@contract("C10", "superposition of disjoint bands changes nothing", n=30, limit=60)
def disjoint(vc):
    rate, fc, delay = common(vc)
    s, x, n = target(vc, 2, "x", rate, fc, delay)
    g, a = added(vc, "dense", 2, rate, fc + rate + vc.real("distance", 0.0, 5.0), delay)
    vc.assume(g.n <= n)
    i, k = vc.choice("stream", [0, 1]), vc.index("sample", n)
    r = s.superimpose(a)
    vc.eq("samples are kept", r.view(np.ndarray)[i, k], x[i, k])


for B in (1, 2):
    @contract("C10", f"interleaving without scaling ({B} blocks)", n=60, limit=60)
    def interleaved(vc, B=B):
        f = Fix(vc, 2, B)
        i, k = vc.choice("stream", [0, 1]), vc.index("sample", f.n)
        e = f.at(i, k)
        y = f.signal.to_interleaved(np.float64, scale=False)
        vc.prove("two values per sample", vc.all(y.shape[0] == 2, y.shape[1] == 2 * f.n))
        vc.eq("in-phase parts come first", y[i, 2 * k], e.real)
        vc.eq("quadrature parts come second", y[i, 2 * k + 1], e.imag)
        vc.eq("the signal is untouched", f.signal.to_dense().view(np.ndarray)[i, k], e)


@bounded("C10", "interleaving round trip", n=300, bound="up to 3 streams of up to 30 samples")
def roundtrip(vc):
    rng = vc.rng
    m, n = int(rng.integers(1, 4)), int(rng.integers(1, 31))
    x = (rng.normal(size=(m, n)) + 1j * rng.normal(size=(m, n))) * 10. ** rng.integers(-3, 4)
    if rng.integers(3) == 0:
        x = rng.integers(-3, 4, (m, n)) + 1j * rng.integers(-3, 4, (m, n)) + 0.
    if not np.any(x):
        return
    s = DenseSignal.FromNDArray(x, 1.0) if rng.integers(2) else SparseSignal(x, 1.0)
    dt = [np.int16, np.int32, np.int8][int(rng.integers(0, 3))]
    y = s.to_interleaved(dt)
    z = Signal.FromInterleaved(y, sampling_rate=1.0).to_dense().view(np.ndarray)
    d = np.array(s.to_dense().view(np.ndarray))
    vc.prove("integers of the requested type", y.dtype == dt and y.shape == (m, 2 * d.shape[1]))
    z = np.pad(z, ((0, 0), (0, d.shape[1] - z.shape[1])))
    ref = d / np.abs(d).max()
    step = 1.0 / np.iinfo(dt).max
    err = max(np.abs(z.real - ref.real).max(), np.abs(z.imag - ref.imag).max())
    vc.prove("the waveform is kept up to one quantisation step", err <= step * (1 + 1e-6), f"{err / step} steps")
    vc.prove("the signal is untouched", np.array_equal(d[:, :n], x[:, :d.shape[1]]))
    w = Signal.FromInterleaved(y, scale=False, sampling_rate=1.0).to_dense().view(np.ndarray)
    w = np.pad(w, ((0, 0), (0, d.shape[1] - w.shape[1])))
    v = y.astype(float)
    vc.prove("unscaled samples are the integers", np.array_equal(w, v[:, 0::2] + 1j * v[:, 1::2]))


@bounded("C10", "sparse superposition", n=1500, bound="up to 3 streams of up to 16 samples, up to 6 samples apart")
def sparse(vc):
    rng = vc.rng
    m = int(rng.integers(1, 4))
    X, x = layout(vc, m, int(rng.integers(1, 17)), rng)
    Y, y = layout(vc, m, int(rng.integers(1, 17)), rng)
    shift = int(rng.integers(-3, 4)) if rng.integers(2) else 0
    rate = 2.0
    x.delay, y.delay = 2.0, 2.0 + shift / rate
    if rng.integers(3) == 0:
        x = x.to_dense()
    elif rng.integers(2):
        y = y.to_dense()
    sel = None if rng.integers(2) else [int(i) for i in rng.permutation(m)[:int(rng.integers(0, m + 1))]]
    E = np.zeros((m, 40), complex)
    E[:, :X.shape[1]] += X
    for i in range(m) if sel is None else sel:
        for k in range(Y.shape[1]):
            if k + shift >= 0:
                E[i, k + shift] += Y[i, k]
    offsets = list(y.block_offsets)
    isdense = isinstance(x, DenseSignal)
    r = x.superimpose(y, stream_indices=sel)
    same(vc, "samples are added to the selected streams", r, E[:, :max(r.num_samples, 1)])
    vc.prove("nothing is cut", not np.any(E[:, r.num_samples:]))
    same(vc, "the added signal is untouched", y, Y)
    vc.prove("the added signal's blocks are untouched", list(y.block_offsets) == offsets and y.delay == 2.0 + shift / rate)
    vc.prove("parameters are kept", r.sampling_rate == rate and r.delay == 2.0 and r.carrier_frequency == x.carrier_frequency)
    if not isdense:
        same(vc, "the sparse signal itself is untouched", x, X)


@bounded("C10", "superposition at other rates and carriers", n=150, bound="tones within the common band of up to 600 samples")
def resampled(vc):
    """Adding a tone at another carrier frequency or sampling rate adds the tone at its absolute frequency."""
    rng = vc.rng
    N, rate = 1200, 1.0
    ratio = [1, 2, 1][int(rng.integers(0, 3))]
    dist = 0.0 if ratio == 2 else float(rng.choice([0.0, 0.2, -0.2, 0.3]))
    # a tone whose absolute frequency lies well within the target's band
    f_abs = float(rng.uniform(-0.1, 0.1))
    f_rel = (f_abs - dist)
    n2 = N * ratio
    y = np.exp(2j * np.pi * f_rel * np.arange(n2) / (rate * ratio))[None, :]
    Y = DenseSignal.FromNDArray(y, rate * ratio, 10.0 + dist)
    x = (rng.normal(size=(1, N)) + 1j * rng.normal(size=(1, N)))
    for X in (DenseSignal.FromNDArray(x.copy(), rate, 10.0), SparseSignal(x.copy(), rate, 10.0)):
        before = y.copy()
        r = X.superimpose(Y).to_dense().view(np.ndarray)
        vc.prove("number of samples", r.shape[1] == N, r.shape)
        diff = (r - x)[0, 300:900]
        tone = np.exp(2j * np.pi * f_abs * np.arange(300, 900) / rate)
        c = np.vdot(tone, diff) / 600
        vc.prove("the tone is added at its absolute frequency", np.abs(np.abs(c) - 1) < 0.1, np.abs(c))
        vc.prove("nothing else is added", np.sum(np.abs(diff - c * tone) ** 2) < 0.05 * 600,
                 np.sum(np.abs(diff - c * tone) ** 2) / 600)
        vc.prove("the added signal is untouched", np.array_equal(before, Y.view(np.ndarray)))


@bounded("C10", "carrier shift of sparse signals", n=60, bound="two blocks of up to 300 samples each")
def shifted(vc):
    """Superimposing onto another carrier shifts sparse signals as it shifts their dense form (away from the block edges)."""
    rng = vc.rng
    a, n, gap, m = (int(rng.integers(*r)) for r in ((0, 40), (150, 300), (1, 60), (150, 300)))
    x = np.zeros((1, a + n + gap + m), dtype=complex)
    x[0, a:a + n] = rng.normal() + 1j
    x[0, a + n + gap:] = 1 + 1j * rng.normal()
    dist = float(rng.choice([-0.3, -0.1, 0.05, 0.2]))
    zeros = np.zeros((1, x.shape[1]), dtype=complex)
    out = [DenseSignal.FromNDArray(zeros, 1.0, 10.0).superimpose(kind(x.copy(), 1.0, 10.0 + dist)).view(np.ndarray)
           for kind in (DenseSignal.FromNDArray, SparseSignal)]
    edge = 65
    for first, last in ((a, a + n), (a + n + gap, x.shape[1])):
        d, e = out[0][0, first + edge:last - edge], out[1][0, first + edge:last - edge]
        vc.prove("same samples within each block", np.max(np.abs(d - e)) < 0.1, np.max(np.abs(d - e)))
