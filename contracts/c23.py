"""C23: noise levels and noise models produce the power they announce."""
import numpy as np
from scipy.constants import Boltzmann
from pyvc.api import contract, bounded
from hermespy.channel import IdealChannel
from hermespy.core import SignalReceiver
from hermespy.core.signal_model import DenseSignal, SignalBlock, SparseSignal
from hermespy.modem import ChirpFSKWaveform, TransmittingModem
from hermespy.simulation import SimulatedDevice
from hermespy.simulation.modem.noise import EBN0, ESN0
from hermespy.simulation.rf.noise.level import N0, SNR, ThermalNoise
from hermespy.simulation.rf.noise.model import AWGN, AWGNRealization
from hermespy.simulation.rf.signal import RFSignal
from contracts.c09 import Fix


def configure(vc, how, create, value):
    """A level of the given value, configured in one of the ways offered to users."""
    if how == "created":
        return create(value)
    level = create(vc.real("previous level", 0.1, 9.0))
    if how == "assigned":
        level.level = value
    else:
        level << value
    return level


WAYS = ["created", "assigned", "shifted"]


@contract("C23", "thermal noise floor", n=100)
def thermal(vc):
    t, b = vc.real("temperature", 0.0, 1e3), vc.real("bandwidth", 0.0, 1e9)
    level = configure(vc, vc.choice("configured", WAYS), ThermalNoise, t)
    vc.prove("the level is the temperature", level.level == t)
    p = level.get_power(b)
    e = 4.0 * 50.0 * (Boltzmann * 1e23) * t * b
    vc.le("noise floor of the bandwidth at 50 Ohm, from below", e * (1 - 1e-6), p * 1e23)
    vc.le("noise floor of the bandwidth at 50 Ohm, from above", p * 1e23, e * (1 + 1e-6))
    vc.raises("negative temperatures are refused", ValueError, lambda: ThermalNoise(-vc.real("x", 0.001, 9.0)))
    vc.eq("no noise without temperature", ThermalNoise(0.0).get_power(b), 0.0)


@contract("C23", "fixed noise power", n=100)
def fixed(vc):
    p, b = vc.real("power", 0.0, 1e3), vc.real("bandwidth", 0.0, 1e6)
    level = configure(vc, vc.choice("configured", WAYS), N0, p)
    vc.prove("the level is the power", vc.all(level.level == p, level.power == p))
    vc.eq("noise power of the bandwidth", level.get_power(b), p * b, tol=1e-3)
    vc.raises("negative powers are refused", ValueError, lambda: N0(-vc.real("x", 0.001, 9.0)))


@contract("C23", "ratio to a reference power", n=100)
def ratio(vc):
    r, b = vc.real("ratio", 0.01, 1e3), vc.real("bandwidth", 0.0, 1e6)
    p = vc.real("reference power", 0.0, 100.0)
    kind = vc.choice("reference", ["device", "receiver"])
    ref = SimulatedDevice(power=p) if kind == "device" else SignalReceiver(10, expected_power=p)
    level = configure(vc, vc.choice("configured", WAYS), lambda x: SNR(x, ref), r)
    vc.prove("the level is the ratio", vc.all(level.level == r, level.snr == r))
    vc.eq("announced power", level.get_power(b), p / r, tol=1e-9)
    q = vc.real("other power", 0.0, 100.0)
    level.reference = SignalReceiver(10, expected_power=q)
    vc.eq("power of another reference", level.get_power(b), q / r, tol=1e-9)
    vc.raises("ratios have to be positive", ValueError, lambda: SNR(-vc.real("x", 0.0, 9.0), ref))
    vc.raises("ratios have to stay positive", ValueError, lambda: level << 0.0)


@contract("C23", "ratio to a reference power behind a channel", n=30)
def behind(vc):
    r, p = vc.real("ratio", 0.01, 1e3), vc.real("reference power", 0.0, 100.0)
    g, h = vc.real("gain", 0.01, 9.0), vc.real("other gain", 0.01, 9.0)
    a, b = SimulatedDevice(power=p), SimulatedDevice()
    channel = IdealChannel(gain=g)
    level = SNR(r, a, channel)
    channel.realize().sample(a, b)
    vc.eq("reference power at the receiver", level.get_power(1.0), p * g / r, tol=1e-6)
    channel.gain = h
    channel.realize().sample(a, b)
    vc.eq("reference power after the channel changed", level.get_power(1.0), p * h / r, tol=1e-6)


for KIND, ENERGY in ((EBN0, "bit_energy"), (ESN0, "symbol_energy")):
    @contract("C23", f"ratio to the energy of communication waveforms: {KIND.__name__}", n=30)
    def energy(vc, KIND=KIND, ENERGY=ENERGY):
        r = vc.real("ratio", 0.01, 1e3)
        w = ChirpFSKWaveform()
        b = 1e9
        e = getattr(w, ENERGY)(b, 1)
        m = TransmittingModem(waveform=w)
        ref = vc.choice("reference", [0, 1])
        level = configure(vc, vc.choice("configured", WAYS), lambda x: KIND((w, m)[ref], x), r)
        vc.prove("the level is the ratio", level.level == r)
        vc.eq("announced power", level.get_power(b), e / r, tol=1e-9)
        vc.raises("ratios have to be positive", ValueError, lambda: KIND(w, -vc.real("x", 0.0, 9.0)))
        vc.raises("a waveform is required", RuntimeError, lambda: KIND(TransmittingModem(), 1.0).get_power(b))
        n = ChirpFSKWaveform(num_data_chirps=3, chirp_duration=2e-6)
        level.reference = n
        vc.eq("power of another reference", level.get_power(b), getattr(n, ENERGY)(b, 1) / r, tol=1e-9)


def signal(vc, kind, streams):
    """A signal of arbitrary samples, and the samples."""
    if kind == "sparse":
        f = Fix(vc, streams, 2)
        return f.signal, f.n, f.at
    n = vc.int("samples", 1, cap=6)
    x = vc.array("x", (streams, n), "c")
    if kind == "dense":
        s = DenseSignal.FromNDArray(x, 4.0, 2.0, vc.real("noise", 0.0, 2.0), 1.0)
    else:
        s = RFSignal.FromNDArray(x, 4.0)
    return s, n, lambda i, k: x[i, k] + 0


for SIG in ("dense", "sparse", "radio-frequency"):
    @contract("C23", f"noise added to {SIG} signals", n=60, limit=80)
    def noise(vc, SIG=SIG):
        m = vc.choice("streams", [1, 2])
        s, n, at = signal(vc, SIG, m)
        p, seed = vc.real("power", 0.001, 100.0), vc.choice("seed", [3, 99])
        i, k = vc.choice("stream", range(m)), vc.index("sample", n)
        e = at(i, k)
        blank = DenseSignal.FromNDArray(np.zeros((m, n), dtype=np.complex128), 4.0)
        u = AWGNRealization(2.0, seed).add_to(blank)
        r = AWGNRealization(p, seed)
        a = r.add_to(s)
        vc.prove("shape", vc.all(a.num_samples == n, a.num_streams == m))
        d = a.to_dense().view(np.ndarray)[i, k] - e
        vc.eq("the added term scales with the root of the power, whatever the samples",
              d, (p / 2.0) ** 0.5 * u.view(np.ndarray)[i, k], tol=1e-9)
        vc.eq("the signal itself is untouched", s.to_dense().view(np.ndarray)[i, k], e)
        vc.prove("parameters are kept", vc.all(a.sampling_rate == s.sampling_rate, a.delay == s.delay))
        vc.eq("the same realization adds the same noise", r.add_to(s).to_dense().view(np.ndarray)[i, k], d + e, tol=1e-12)
        vc.prove("announced power", r.power == p)
        if SIG != "radio-frequency":
            vc.prove("power noted with the signal", a.noise_power == p)
        z = AWGNRealization(0.0, seed).add_to(s)
        vc.prove("shape without noise", vc.all(z.num_samples == n, z.num_streams == m))
        vc.eq("no power adds nothing", z.to_dense().view(np.ndarray)[i, k], e)

    @contract("C23", f"noise models: {SIG} signals", n=40, limit=80)
    def models(vc, SIG=SIG):
        s, n, at = signal(vc, SIG, 2)
        p, seed = vc.real("power", 0.001, 100.0), vc.choice("seed", [3, 99])
        i, k = vc.choice("stream", [0, 1]), vc.index("sample", n)
        r = AWGN(seed).realize(p)
        vc.prove("realizations have the requested power", r.power == p)
        vc.eq("noise is added as realized", AWGN(seed).add_noise(s, p).to_dense().view(np.ndarray)[i, k],
              r.add_to(s).to_dense().view(np.ndarray)[i, k], tol=1e-12)
        vc.eq("no power adds nothing", AWGN(seed).add_noise(s, 0.0).to_dense().view(np.ndarray)[i, k], at(i, k))
        vc.raises("negative powers are refused", ValueError, lambda: AWGN(seed).realize(-p))


@bounded("C23", "statistics of realised noise", n=40, bound="40 signals of 2 x 20000 samples, five standard deviations")
def statistics(vc):
    m, n = 2, 20000
    p = float(10 ** vc.rng.uniform(-6, 6))
    x = vc.rng.normal(size=(m, n)) + 1j * vc.rng.normal(size=(m, n))
    kind = vc.rng.integers(0, 3)
    if kind == 0:
        s = DenseSignal.FromNDArray(x, 1.0)
    elif kind == 1:
        s = RFSignal.FromNDArray(x, 1.0)
    else:
        x[:, n // 2:n // 2 + 5] = 0.0
        s = SparseSignal([SignalBlock(m, n // 2, 0, x[:, :n // 2].tobytes()),
                          SignalBlock(m, n - n // 2 - 5, n // 2 + 5, x[:, n // 2 + 5:].tobytes())], 1.0)
    model = AWGN(int(vc.rng.integers(0, 2 ** 31)))
    z = [model.add_noise(s, p).to_dense().view(np.ndarray) - x for _ in range(2)]
    d = 5 / np.sqrt(2 * m * n)
    for w in z:
        w = w / np.sqrt(p)
        for i in range(m):
            e = np.abs(w[i]) ** 2
            vc.prove("power of each stream", abs(e.mean() - 1) < 5 / np.sqrt(n))
            vc.prove("mean of each stream", abs(w[i].mean()) < 5 / np.sqrt(n))
            vc.prove("circular", abs((w[i] ** 2).mean()) < 5 * np.sqrt(2 / n))
            vc.prove("fourth moment of a normal distribution", abs((e ** 2).mean() - 2) < 5 * np.sqrt(20 / n))
            vc.prove("independent samples", abs((w[i, 1:] * w[i, :-1].conj()).mean()) < 5 / np.sqrt(n))
        vc.prove("independent streams", abs((w[0] * w[1].conj()).mean()) < 5 / np.sqrt(n))
    vc.prove("independent realizations", abs((z[0] * z[1].conj()).mean()) / p < d * 2)
