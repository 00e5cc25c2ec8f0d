"""C25: channels are linear, energy-consistent and reciprocal."""
import numpy as np
from pyvc.api import contract, bounded
from hermespy.core import Transformation
from hermespy.core.signal_model import DenseSignal, SignalBlock, SparseSignal
from hermespy.channel import (FixedCrossSection, IdealChannel, MultipathFadingChannel, MultiTargetRadarChannel, RandomDelayChannel,
                              SingleTargetRadarChannel, SpatialDelayChannel, TDL, TDLType, VirtualRadarTarget)
from hermespy.channel.channel import LinkState
from hermespy.channel.delay.delay import DelayChannelSample
from hermespy.channel.ideal import IdealChannelSample
from hermespy.simulation import SimulatedDevice, SimulatedIdealAntenna, SimulatedUniformArray, StaticTrajectory
from hermespy.channel.fading.fading import MultipathFadingSample
from hermespy.channel.radar.radar import RadarChannelSample, RadarInterferencePath, RadarPath, RadarTargetPath
from hermespy.tools import amplitude_path_loss
from contracts.c09 import Fix

RATE = 4.0
KINDS = ["dense", "single block", "two blocks"]
SIZES = [(1, 1), (1, 2), (2, 1), (2, 2), (2, 3), (3, 2)]
C = 299792458.0


def device(m, position=(0.0, 0.0, 0.0), velocity=(0.0, 0.0, 0.0)):
    d = SimulatedDevice(antennas=SimulatedUniformArray(SimulatedIdealAntenna, 0.1, (m, 1, 1)))
    d.trajectory = StaticTrajectory(Transformation.From_Translation(np.array(position)), np.array(velocity))
    return d


def link(ntx, nrx, fc=1e9, rate=RATE, position=(3.0, 4.0, 1.0)):
    return LinkState(device(ntx).state(), device(nrx, position).state(), fc, rate, 0.0)


def signals(vc, kind, m, name="x"):
    f = Fix(vc, m, 2 if kind == "two blocks" else 1, name, RATE)
    f.signal.delay = f.delay = 0.0
    return f, f.signal.to_dense() if kind == "dense" else f.signal


def propagated(vc, kind, sample, taps, spread, ntx, nrx):
    """Check that the output is the sum of the input delayed by d and mapped by H over all (d, H) in taps."""
    f, s = signals(vc, kind, ntx)
    i, k = vc.choice("stream", range(nrx)), vc.index("sample", f.n + spread)
    e = 0j
    for d, h in taps:
        if k >= d and k - d < f.n:
            e = e + sum((h[i][j] * f.at(j, k - d) for j in range(ntx)), 0j)
    r = sample.propagate(s)
    vc.prove("number of streams", r.num_streams == nrx)
    dense = r.to_dense().view(np.ndarray)
    if r.num_samples == f.n + spread:
        vc.prove("the delay is kept", r.delay == 0.0)
        vc.eq("each output sample is the sum of all delayed input samples", dense[i, k], e, tol=1e-9)
    else:
        vc.prove("as many samples as the input since the first one", r.num_samples == f.n + spread - f.off[0])
        vc.eq("the start is kept", r.delay * RATE, f.off[0] + 0.0, tol=1e-9)
        if k < f.off[0]:
            vc.eq("nothing before the first input", e, 0j)
        else:
            vc.eq("each output sample is the sum of all delayed input samples", dense[i, k - f.off[0]], e, tol=1e-9)
    vc.prove("noise power is kept", r.noise_power == f.noise)
    vc.eq("the input is untouched", s.to_dense().view(np.ndarray)[0, f.off[-1]], f.x[-1][0, 0])


def response(sample, ntx, n=1):
    """Output of a channel at rest to unit impulses, by delay."""
    cols = [sample.propagate(DenseSignal.FromNDArray(np.eye(ntx, dtype=complex)[:, [j]], RATE)).to_dense().view(np.ndarray)
            for j in range(ntx)]
    h = np.stack(cols, 1)
    return [(d, h[:, :, d]) for d in range(h.shape[2])]


class Path(RadarPath):
    """A path at rest."""

    def __init__(self, samples, delay, response):
        RadarPath.__init__(self)
        self.samples, self.delay, self.response = samples, delay, response

    ground_truth = None

    def propagation_delay(self, transmitter, receiver):
        return self.delay

    def relative_velocity(self, transmitter, receiver):
        return 0.0

    def propagation_response(self, transmitter, receiver, carrier_frequency):
        return self.response


ARRAYS = {"dense": [(1, 1), (2, 2)], "single block": [(1, 2)], "two blocks": [(1, 1)]}
PATHS = {"dense": 2, "single block": 2, "two blocks": 1}

for KIND in KINDS:
    @contract("C25", f"ideal channel: {KIND}", n=60, limit=60)
    def ideal(vc, KIND=KIND):
        ntx, nrx = vc.choice("antennas", SIZES)
        root = vc.real("root of the gain", 0.1, 4.0)
        s = IdealChannelSample(root * root, link(ntx, nrx))
        h = np.ones((nrx, ntx)) if min(ntx, nrx) == 1 else np.eye(nrx, ntx)
        vc.eq("energy scale", s.expected_energy_scale, root * root, tol=1e-9)
        propagated(vc, KIND, s, [(0, h * root)], 0, ntx, nrx)

    @contract("C25", f"delay channel: {KIND}", n=60, limit=90)
    def delay(vc, KIND=KIND):
        ntx, nrx = vc.choice("antennas", ARRAYS[KIND])
        root = vc.real("root of the gain", 0.1, 4.0)
        k, e = vc.int("delay in samples", 0, cap=4), vc.real("fraction", 0.05, 0.45)
        lossy = vc.choice("path loss", [True, False])
        fc = 1e9
        place = (0.0, 0.0, 0.0) if lossy else (3.0, 4.0, 12.0)
        t = (k + e) / RATE
        l = link(ntx, nrx, fc, position=place)
        s = DelayChannelSample(t, lossy, root * root, l)
        a = root * amplitude_path_loss(fc, t * C) if lossy else root
        vc.eq("energy scale", s.expected_energy_scale, a * a, tol=1e-9)
        if place[0] == 0.0:
            h = np.ones((nrx, ntx))
        else:
            h = response(DelayChannelSample(0.0, False, 1.0, l), ntx)[0][1]
        propagated(vc, KIND, s, [(k, h * a)], k, ntx, nrx)

    @contract("C25", f"multipath fading channel: {KIND}", n=60, limit=100)
    def fading(vc, KIND=KIND):
        ntx, nrx = vc.choice("antennas", ARRAYS[KIND])
        root = vc.real("root of the gain", 0.1, 4.0)
        n = PATHS[KIND]
        k = [vc.int(f"delay{q}", 0, cap=3) for q in range(n)]
        e = [vc.real(f"fraction{q}", -0.45, 0.45) for q in range(n)]
        p = [vc.real(f"root of power{q}", 0.1, 2.0) for q in range(n)]
        los, nlos = vc.array("specular gains", (n,), "f"), vc.array("scattered gains", (n,), "f")
        a, b = vc.array("specular phases", (n,), "f"), vc.array("scattered phases", (n, 2), "f")
        h = vc.array("spatial response", (nrx, ntx), "c")
        s = MultipathFadingSample(
            np.array([x * x for x in p]), np.array([(x + y) / RATE for x, y in zip(k, e)]), np.array([0.5, 1.5][:n]),
            np.array([[0.1, 0.2], [0.3, 0.4]][:n]), a, b, los, nlos, 0.0, 0.0, h, root * root, link(ntx, nrx))
        vc.eq("energy scale", s.expected_energy_scale, root * root * sum(x * x for x in p), tol=1e-9)
        taps = [(k[q], h * (root * p[q] * (los[q] * np.exp(1j * a[q]) + nlos[q] * (np.exp(1j * b[q, 0]) + np.exp(1j * b[q, 1])))))
                for q in range(n)]
        propagated(vc, KIND, s, taps, max(k), ntx, nrx)

    @contract("C25", f"radar channel: {KIND}", n=60, limit=100)
    def radar(vc, KIND=KIND):
        ntx, nrx = vc.choice("antennas", ARRAYS[KIND])
        root = vc.real("root of the gain", 0.1, 4.0)
        paths = []
        for q in range(PATHS[KIND]):
            d, f = vc.int(f"delay{q}", 0, cap=3), vc.real(f"fraction{q}", 0.05, 0.95)
            paths.append(Path(d, (d + f) / RATE, vc.array(f"response{q}", (nrx, ntx), "c")))
        s = RadarChannelSample(paths, root * root, link(ntx, nrx))
        vc.eq("energy scale", s.expected_energy_scale, root * root, tol=1e-9)
        propagated(vc, KIND, s, [(p.samples, p.response * root) for p in paths], 1 + max(p.samples for p in paths), ntx, nrx)


def kinds(rng):
    gain = float(rng.uniform(0.5, 4))
    seed = int(rng.integers(1, 10 ** 6))
    T = 1e-7
    return {
        "ideal": lambda: IdealChannel(gain, seed=seed),
        "spatial delay": lambda: SpatialDelayChannel(model_propagation_loss=bool(seed % 2), gain=gain, seed=seed),
        "random delay": lambda: RandomDelayChannel((T, 8 * T), model_propagation_loss=bool(seed % 2), gain=gain, seed=seed),
        "fading": lambda: MultipathFadingChannel(np.array([0, 1.3 * T, 5 * T]), np.array([1., .5, .2]), np.array([np.inf, 1., 0.]),
                                                 doppler_frequency=1e6, los_doppler_frequency=2e6, gain=gain, seed=seed),
        "tapped delay line": lambda: TDL(list(TDLType)[seed % len(TDLType)], rms_delay=2e-7, gain=gain, seed=seed),
        "single target": lambda: SingleTargetRadarChannel((20., 60.), 2., velocity=np.array([3e6, 1e6, 0.]), gain=gain,
                                                          attenuate=bool(seed % 2), seed=seed),
        "targets": lambda: targets(gain, seed),
    }


def targets(gain, seed):
    c = MultiTargetRadarChannel(gain=gain, seed=seed)
    for x in (10., 30.):
        c.add_target(VirtualRadarTarget(FixedCrossSection(3.), StaticTrajectory(
            Transformation.From_Translation(np.array([x, 2 * x, 5.])), np.array([2e6, x * 1e4, 0.]))))
    return c


@bounded("C25", "realisations of all channels", n=120, budget=25, bound="120 sampled realisations of seven channel models")
def realised(vc):
    rng = vc.rng
    name = vc.choice("channel", ["ideal", "spatial delay", "random delay", "fading", "tapped delay line", "single target", "targets"])
    ntx, nrx = int(rng.integers(1, 4)), int(rng.integers(1, 4))
    rate, n = 1e7, int(rng.integers(2, 30))
    if "target" in name:
        nrx = ntx
    a = device(ntx, rng.uniform(-30, 30, 3), rng.uniform(-1e6, 1e6, 3))
    b = device(nrx, rng.uniform(-30, 30, 3), rng.uniform(-1e6, 1e6, 3))
    channel = kinds(rng)[name]()
    if vc.choice("devices", ["two", "one"]) == "one" and name == "single target":
        b = a
    real = channel.realize()
    s = real.sample(a, b, 0.0, 1e9, rate)
    vc.prove("carrier and bandwidth are sampled", (s.carrier_frequency, s.bandwidth) == (1e9, rate))
    k = real.sample(a, b, carrier_frequency=1e9, bandwidth=rate)
    vc.prove("parameters are recognised by name", (k.carrier_frequency, k.bandwidth) == (1e9, rate))

    def signal():
        return rng.normal(size=(ntx, n)) + 1j * rng.normal(size=(ntx, n))

    def through(x, sample=s):
        return sample.propagate(DenseSignal.FromNDArray(x, rate, 1e9)).to_dense().view(np.ndarray)
    x, z = signal(), signal()
    y = through(x)
    vc.prove("propagation is repeatable", np.allclose(y, through(x)))
    close = lambda p, q: p.shape == q.shape and np.allclose(p, q, rtol=1e-8, atol=1e-11 * max(1e-9, np.abs(q).max(initial=0)))
    vc.prove("scaled sums", close(through(2.5j * x + z), 2.5j * y + through(z)))
    cut = int(rng.integers(1, n))
    sparse = SparseSignal([SignalBlock(ntx, cut, 0, x[:, :cut].tobytes()), SignalBlock(ntx, n - cut, cut, x[:, cut:].tobytes())],
                          rate, 1e9)
    w = s.propagate(sparse).to_dense().view(np.ndarray)
    m = min(w.shape[1], y.shape[1])
    vc.prove("blocks superimpose", close(w[:, :m], y[:, :m]) and np.allclose(w[:, m:], 0) and np.allclose(y[:, m:], 0))
    late = x.copy()
    late[:, :cut] = 0
    vc.prove("output starts no earlier than the input", np.allclose(through(late)[:, :cut], 0))
    h = np.asarray(s.state(n, y.shape[1]).dense_state())
    vc.prove("state has one response for each pair of antennas", h.shape[:3] == (nrx, ntx, n))
    e = np.zeros((nrx, max(n + h.shape[3], y.shape[1])), complex)
    for d in range(h.shape[3]):
        e[:, d:d + n] += np.einsum("ijk,jk->ik", h[:, :, :, d], x)
    vc.prove("states describe the propagation", close(y, e[:, :y.shape[1]]) and np.allclose(e[:, y.shape[1]:], 0))
    for taps in range(1, h.shape[3]):
        t = np.asarray(s.state(n, taps).dense_state())
        vc.prove("truncated states keep the first taps", np.allclose(t, h[..., :t.shape[3]]) and t.shape[3] <= taps
                 and np.allclose(h[..., t.shape[3]:taps], 0))
    back = real.reciprocal_sample(s, b, a, 0.0, 1e9, rate)
    g = np.asarray(back.state(n, y.shape[1]).dense_state())
    vc.prove("reciprocal responses are transposed", close(g, h.swapaxes(0, 1)))
    vc.prove("reciprocal energy", np.isclose(back.expected_energy_scale, s.expected_energy_scale))
    vc.prove("wrong numbers of streams are refused", refused(s, ntx, n, rate))


def refused(s, ntx, n, rate):
    try:
        s.propagate(DenseSignal.FromNDArray(np.ones((ntx + 1, n), complex), rate, 1e9))
    except ValueError:
        return True
    return False


@contract("C25", "free space path loss", n=40)
def path_loss(vc):
    f, d = vc.real("carrier", 1.0, 9e10), vc.real("distance", 0.01, 9e6)
    a = amplitude_path_loss(f, d)
    vc.prove("amplitude is the wavelength over the circumference", vc.all(
        a * 4 * np.pi * f * d <= C * (1 + 1e-9), a * 4 * np.pi * f * d >= C * (1 - 1e-9)))
    vc.raises("no loss without a carrier", ValueError, lambda: amplitude_path_loss(0.0, d))
