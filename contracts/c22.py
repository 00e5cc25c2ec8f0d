"""C22: coupling and isolation models act as the configured linear maps."""
import numpy as np
from pyvc.api import contract, bounded
from hermespy.core.signal_model import DenseSignal, SignalBlock, SparseSignal
from hermespy.simulation import SimulatedDevice, SimulatedIdealAntenna, SimulatedUniformArray
from hermespy.simulation.coupling import ImpedanceCoupling, PerfectCoupling
from hermespy.simulation.isolation import PerfectIsolation, SelectiveLeakage, SpecificIsolation
from contracts.c09 import Fix

RATE = 4.0


def device(m):
    return SimulatedDevice(antennas=SimulatedUniformArray(SimulatedIdealAntenna, 1.0, (m, 1, 1)))


def kept(vc, r, s):
    vc.prove("rate and carrier are kept", vc.all(r.sampling_rate == s.sampling_rate, r.carrier_frequency == s.carrier_frequency))


KINDS = ["dense", "single block", "two blocks"]


def mapped(vc, m, kind, linear, apply, streams_out, label):
    """Check that the signal is mapped sample by sample by the matrix linear."""
    f = Fix(vc, m, 2 if kind == "two blocks" else 1, "x", RATE)
    f.signal.delay = f.delay = 0.0
    s = f.signal.to_dense() if kind == "dense" else f.signal
    i, k = vc.choice("stream", range(streams_out)), vc.index("sample", f.n)
    e = sum((linear[i, j] * f.at(j, k) for j in range(m)), 0j)
    r = apply(s)
    vc.prove("number of streams", r.num_streams == streams_out)
    if r.num_samples == f.n:
        got = r.to_dense().view(np.ndarray)[i, k]
        vc.prove("the delay is kept", r.delay == 0.0)
    else:
        # A dense signal that starts at its first sample
        vc.prove("as many samples as the original since the first one", r.num_samples == f.n - f.off[0])
        vc.eq("the start is kept", r.delay * RATE, f.off[0] + 0.0, tol=1e-9)
        if k < f.off[0]:
            got = 0j
        else:
            got = r.to_dense().view(np.ndarray)[i, k - f.off[0]]
    vc.eq(label, got, e, tol=1e-9)
    kept(vc, r, s)
    vc.prove("noise power is kept", r.noise_power == s.noise_power)
    vc.eq("the original is untouched", s.to_dense().view(np.ndarray)[0, k], f.at(0, k))


for KIND in KINDS:
    @contract("C22", f"perfect coupling: {KIND}", n=40, limit=60)
    def perfect(vc, KIND=KIND):
        m = vc.choice("antennas", [1, 2, 3])
        state = device(m).state()
        way = vc.choice("direction", ["transmit", "receive"])
        c = PerfectCoupling()
        mapped(vc, m, KIND, np.eye(m), lambda s: getattr(c, way)(s, state), m, "samples are unchanged")

    @contract("C22", f"impedance coupling: {KIND}", n=40, limit=60)
    def impedance(vc, KIND=KIND):
        m = vc.choice("antennas", [1, 2, 3])
        z, r, w, p = (vc.real(x, 0.25, 9.0) for x in ("impedance", "correlation", "matching impedance", "receive impedance"))
        z, r, w, p = z * z, r * r, w * w, p * p
        state = device(m).state()
        way = vc.choice("direction", ["transmit", "receive"])
        which = vc.choice("configured", ["nothing", "everything"])
        if which == "nothing":
            c, g = ImpedanceCoupling(), 1.0
        else:
            c = ImpedanceCoupling(np.eye(m) * r, np.eye(m) * r, np.eye(m) * z, np.eye(m) * p, np.eye(m) * w)
            g = (r / z) ** 0.5 if way == "transmit" else 2 * p * w ** 0.5 * r ** 0.5 / (w + r)
        mapped(vc, m, KIND, np.eye(m) * g, lambda s: getattr(c, way)(s, state), m, "samples are scaled as configured")

    @contract("C22", f"specific isolation: {KIND}", n=60, limit=60)
    def specific(vc, KIND=KIND):
        m = vc.choice("antennas", [1, 2])
        root = [[vc.real(f"root{i}{j}", 0.25, 9.0) for j in range(m)] for i in range(m)]
        iso = np.array([[x * x for x in row] for row in root])
        model = SpecificIsolation(device=device(m))
        model.isolation = iso
        mapped(vc, m, KIND, np.array([[1 / x for x in row] for row in root]), model.leak, m,
               "samples are mapped by the roots of the inverse isolations")

    @contract("C22", f"perfect isolation: {KIND}", n=40, limit=60)
    def isolated(vc, KIND=KIND):
        m = vc.choice("antennas", [1, 2])
        f = Fix(vc, m, 2 if KIND == "two blocks" else 1, "x", RATE)
        s = f.signal.to_dense() if KIND == "dense" else f.signal
        r = PerfectIsolation(device(m)).leak(s)
        vc.prove("nothing leaks", r.num_samples == 0)
        vc.prove("number of streams", r.num_streams == m)
        kept(vc, r, s)

    @contract("C22", f"selective leakage: {KIND}", n=60, limit=90)
    def selective(vc, KIND=KIND):
        m = vc.choice("antennas", [1, 2])
        taps = vc.choice("taps", [1, 3])
        h = vc.array("response", (m, m, taps), "c")
        f = Fix(vc, m, 2 if KIND == "two blocks" else 1, "x", RATE)
        s = f.signal.to_dense() if KIND == "dense" else f.signal
        i, k = vc.choice("stream", range(m)), vc.index("sample", f.n + taps - 1)
        e = 0j
        for j in range(m):
            for t in range(taps):
                if k - t >= 0 and k - t < f.n:
                    e = e + h[i, j, t] * f.at(j, k - t)
        r = SelectiveLeakage(h, device=device(m)).leak(s)
        vc.prove("shape", vc.all(r.num_streams == m, r.num_samples == f.n + taps - 1))
        vc.eq("samples are filtered by the response", r.to_dense().view(np.ndarray)[i, k], e, tol=1e-9)
        kept(vc, r, s)
        vc.prove("the delay is kept", r.delay == s.delay)


@contract("C22", "unusable configurations are refused", n=20)
def refused(vc):
    d = device(2)
    s = DenseSignal.FromNDArray(vc.array("x", (2, 4), "c"), 1.0)
    one = DenseSignal.FromNDArray(vc.array("y", (1, 4), "c"), 1.0)
    vc.raises("undefined isolation", RuntimeError, lambda: SpecificIsolation(device=d).leak(s))
    model = SpecificIsolation(np.ones((2, 2)), device=d)
    model.isolation = None
    vc.raises("isolation removed", RuntimeError, lambda: model.leak(s))
    vc.raises("isolation of fewer receiving antennas", RuntimeError, lambda: SpecificIsolation(np.ones((1, 2)), d).leak(s))
    vc.raises("isolation of fewer transmitting antennas", RuntimeError, lambda: SpecificIsolation(np.ones((2, 1)), d).leak(s))
    vc.raises("scalar isolation of antenna arrays", ValueError, lambda: SpecificIsolation(2.0, d))
    for m in (PerfectIsolation(d), SpecificIsolation(np.ones((2, 2)), d), SelectiveLeakage(np.ones((2, 2, 1)), d)):
        vc.raises("signals of fewer streams do not leak", ValueError, lambda: m.leak(one))
    for c in (PerfectCoupling(), ImpedanceCoupling()):
        vc.raises("signals of fewer streams are not transmitted", ValueError, lambda: c.transmit(one, d.state()))
        vc.raises("signals of fewer streams are not received", ValueError, lambda: c.receive(one, d.state()))


@bounded("C22", "impedance coupling matrices", n=60, bound="60 sampled matrices of 1 to 4 antennas")
def matrices(vc):
    m = int(vc.rng.integers(1, 5))

    def pd(cplx=False):
        a = vc.rng.normal(size=(m, m)) + (1j * vc.rng.normal(size=(m, m)) if cplx else 0)
        return a @ a.conj().T + np.eye(m)
    zt, zr, zm, rt, rr = pd(), pd(), pd(), pd(True), pd(True)
    state = device(m).state()
    x = vc.rng.normal(size=(m, 6)) + 1j * vc.rng.normal(size=(m, 6))
    s = DenseSignal.FromNDArray(x, 1.0)

    def root(a):
        w, v = np.linalg.eigh(a)
        return v @ np.diag(np.sqrt(w)) @ v.conj().T
    c = ImpedanceCoupling(rt, rr, zt, zr, zm)
    y = c.transmit(s, state).to_dense().view(np.ndarray)
    vc.prove("transmit coupling", np.allclose(root(zt) @ y, root(rt) @ x, atol=1e-8))
    y = c.receive(s, state).to_dense().view(np.ndarray)
    vc.prove("receive coupling", np.allclose(y, 2 * zr[0, 0] * root(zm) @ np.linalg.solve(zm + rr, root(rr) @ x), atol=1e-8))
