"""C12: amplifier models never exceed saturation and keep the input phase."""
import numpy as np
from pyvc.api import contract, bounded
from hermespy.simulation.rf.blocks.amps import (PowerAmplifier, ClippingPowerAmplifier, RappPowerAmplifier,
                                                SalehPowerAmplifier, CustomPowerAmplifier)
from hermespy.simulation.rf.signal import RFSignal
from hermespy.simulation.rf.noise.level import N0


def samples(y):
    return y.view(np.ndarray)


def power(z):
    return z.real ** 2 + z.imag ** 2


def stimulus(vc, name="x", streams=2):
    n = vc.int("samples", 1, cap=12)
    x = vc.array(name, (streams, n), "c")
    i = vc.choice("stream", range(streams))
    k = vc.index("sample", n)
    return x, i, k, n


def run(amp, x):
    """The amplifier's model behind its linear gain."""
    s = RFSignal.FromNDArray(x, 1.0)
    return samples(amp.model(s))


def aligned(vc, name, y, x):
    """y is a non-negative multiple of x."""
    z = y * np.conj(x)
    vc.eq(name, z.imag, 0.0)
    vc.le(name, 0.0, z.real)


@contract("C12", "linear amplifier", n=60)
def linear(vc):
    x, i, k, n = stimulus(vc)
    gain = vc.real("gain", 0.0, 4.0)
    amp = PowerAmplifier(gain)
    vc.eq("model is the identity", run(amp, x)[i, k], x[i, k])


@contract("C12", "clipping amplifier", n=250, limit=60)
def clipping(vc):
    x, i, k, n = stimulus(vc)
    sat = vc.real("saturation", 0.0, 3.0)
    amp = ClippingPowerAmplifier(sat)
    before = x[i, k] + 0
    s = RFSignal.FromNDArray(x, 1.0)
    y = samples(amp.model(s))
    out = y[i, k]
    vc.prove("shape is kept", vc.all(y.shape[0] == 2, y.shape[1] == n))
    vc.le("amplitude does not exceed the saturation", power(out), sat ** 2)
    aligned(vc, "phase is kept", out, x[i, k])
    if power(x[i, k]) <= sat ** 2:
        vc.eq("samples below saturation pass unchanged", out, x[i, k])
    else:
        vc.eq("samples above saturation are clipped to it", power(out), sat ** 2)
    vc.eq("the input signal is untouched", samples(s)[i, k], before)


@contract("C12", "clipping amplifier is non-decreasing", n=120, limit=60)
def clipping_monotone(vc):
    n = vc.int("samples", 1, cap=12)
    a = vc.array("a", (1, n), "c")
    b = vc.array("b", (1, n), "c")
    k = vc.index("sample", n)
    sat = vc.real("saturation", 0.0, 3.0)
    vc.assume(power(a[0, k]) <= power(b[0, k]))
    amp = ClippingPowerAmplifier(sat)
    ya, yb = power(run(amp, a)[0, k]), power(run(amp, b)[0, k])
    pa, pb, ps = power(a[0, k]), power(b[0, k]), sat ** 2
    va = vc.via("power is limited to that of the saturation", ya, pa if pa <= ps else ps)
    vb = vc.via("power is limited to that of the saturation", yb, pb if pb <= ps else ps)
    vc.le("output amplitude is non-decreasing", va, vb)


def rapp_terms(vc, a, p):
    """log of the output amplitude of the Rapp model, w = log a - log(1 + a**(2 p)) / (2 p)."""
    u = 2 * p * np.log(a)
    t = np.exp(u)
    l = np.log(1 + t)
    vc.cut("numerator below denominator", ("<=", t, np.exp(l)))
    vc.cut("numerator below denominator", ("<=", u, l))
    return u, l, np.log(a) - l / (2 * p)


@contract("C12", "Rapp amplifier", n=200, limit=100, prove_ms=20000, note="any smoothness factor")
def rapp(vc):
    x, i, k, n = stimulus(vc)
    p = vc.real("smoothness", 0.05, 6.0)
    amp = RappPowerAmplifier(p)
    y = run(amp, x)
    out = y[i, k]
    vc.prove("shape is kept", vc.all(y.shape[0] == 2, y.shape[1] == n))
    aligned(vc, "phase is kept", out, x[i, k])
    vc.le("amplitude does not exceed the input", power(out), power(x[i, k]))
    a = abs(x[i, k])
    if a > 0:
        u, l, w = rapp_terms(vc, a, p)
        vc.cut("logarithm of the amplitude is non-positive", ("<=", w, 0.0))
        vc.le("amplitude does not exceed the unit saturation", vc.via("amplitude of the Rapp model", power(out), np.exp(w) ** 2),
              1.0)
    else:
        vc.eq("zero is mapped to zero", out, 0.0)


@contract("C12", "Rapp amplifier is non-decreasing", n=120, limit=100, prove_ms=20000)
def rapp_monotone(vc):
    n = vc.int("samples", 1, cap=12)
    a = vc.array("a", (1, n), "c")
    b = vc.array("b", (1, n), "c")
    k = vc.index("sample", n)
    p = vc.real("smoothness", 0.05, 6.0)
    vc.assume(power(a[0, k]) <= power(b[0, k]))
    amp = RappPowerAmplifier(p)
    ya, yb = run(amp, a)[0, k], run(amp, b)[0, k]
    ra, rb = abs(a[0, k]), abs(b[0, k])
    if ra > 0:
        if rb > 0:
            ua, la, wa = rapp_terms(vc, ra, p)
            ub, lb, wb = rapp_terms(vc, rb, p)
            vc.cut("logarithms are ordered", ("<=", ua, ub))
            vc.cut("compressed logarithms are ordered", ("<=", np.exp(ua + lb), np.exp(ub + la)))
            vc.cut("compressed logarithms are ordered", ("<=", ua + lb, ub + la))
            vc.cut("compressed logarithms are ordered", ("<=", wa, wb))
            va = vc.via("amplitude of the Rapp model", power(ya), np.exp(wa) ** 2)
            vb = vc.via("amplitude of the Rapp model", power(yb), np.exp(wb) ** 2)
            vc.le("output amplitude is non-decreasing", va, vb)
    else:
        vc.le("output amplitude is non-decreasing", power(ya), power(yb))


@contract("C12", "Saleh amplifier", n=200, limit=100)
def saleh(vc):
    x, i, k, n = stimulus(vc)
    aa = vc.real("amplitude alpha", 0.0, 4.0)
    ab = vc.real("amplitude beta", 0.0, 4.0)
    pa = vc.real("phase alpha", -4.0, 4.0)
    pb = vc.real("phase beta", 0.0, 4.0)
    amp = SalehPowerAmplifier(aa, ab, pa, pb)
    y = run(amp, x)
    out, P = y[i, k], power(x[i, k])
    vc.prove("shape is kept", vc.all(y.shape[0] == 2, y.shape[1] == n))
    vc.eq("amplitude follows the configured model", power(out) * (1 + ab * P) ** 2, aa ** 2 * P)
    phi = pa * P / (1 + pb * P)
    vc.eq("phase is shifted as configured", out * (1 + ab * P), aa * x[i, k] * np.exp(1j * phi))
    vc.le("amplitude does not exceed the saturation", 4 * ab * power(out), aa ** 2)


@contract("C12", "custom amplifier", n=200, limit=100, note="characteristics of up to four points")
def custom(vc):
    x, i, k, n = stimulus(vc, streams=1)
    m = vc.choice("points", [1, 2, 3] if vc.symbolic else [1, 2, 3, 4])
    xs = [vc.real("x0", 0.0, 2.0)]
    for j in range(1, m):
        d = vc.real(f"d{j}", 0.0, 2.0)
        vc.assume(d > 0)
        xs.append(xs[-1] + d)
    g = [vc.real(f"g{j}", 0.0, 3.0) for j in range(m)]
    ph = [vc.real(f"p{j}", -3.0, 3.0) for j in range(m)]
    amp = CustomPowerAmplifier(np.array(xs), np.array(g), np.array(ph))
    a = abs(x[i, k])

    def table(f):
        if a <= xs[0]:
            return f[0]
        for j in range(1, m):
            if a < xs[j]:
                return f[j - 1] + (f[j] - f[j - 1]) * (a - xs[j - 1]) / (xs[j] - xs[j - 1])
        return f[m - 1]

    tg, tp = table(g), table(ph)
    out = run(amp, x)[i, k]
    vc.eq("gain and phase follow the configured characteristic", out, x[i, k] * tg * np.exp(1j * tp))


MODELS = {
    "linear": lambda vc: PowerAmplifier(vc.real("gain", 0.0, 4.0)),
    "clipping": lambda vc: ClippingPowerAmplifier(vc.real("saturation", 0.0, 3.0), vc.real("gain", 0.0, 4.0)),
    "Rapp": lambda vc: RappPowerAmplifier(vc.real("smoothness", 0.05, 6.0), vc.real("gain", 0.0, 4.0)),
    "Saleh": lambda vc: SalehPowerAmplifier(vc.real("aa", 0.0, 4.0), vc.real("ab", 0.0, 4.0), vc.real("pa", -4.0, 4.0),
                                            vc.real("pb", 0.0, 4.0), vc.real("gain", 0.0, 4.0)),
    "custom": lambda vc: CustomPowerAmplifier(np.array([0.0, 0.5, 1.0]), np.array([1.0, 0.9, 0.4]),
                                              np.array([0.1, -0.2, 0.3]), vc.real("gain", 0.0, 4.0)),
}


def independent(vc, make):
    """Samples are processed independently; zero maps to zero; the model acts behind the gain."""
    n = vc.int("samples", 1, cap=12)
    m = vc.int("other samples", 1, cap=12)
    a = vc.array("a", (2, n), "c")
    b = vc.array("b", (1, m), "c")
    k = vc.index("sample", n)
    j = vc.index("other sample", m)
    i = vc.choice("stream", [0, 1])
    amp = make(vc)
    b[0, j] = a[i, k]
    one, two = RFSignal.FromNDArray(a, 1.0), RFSignal.FromNDArray(b, 1.0)
    model = samples(amp.model(RFSignal.FromNDArray(b * amp.gain, 1.0)))
    first = samples(amp.propagate(amp.realize(1.0, 1, 0.0), RFSignal.FromNDArray(a[:1] if i == 0 else a[1:], 1.0)))
    second = samples(amp.propagate(amp.realize(1.0, 1, 0.0), two))
    vc.prove("the number of samples is kept", vc.all(first.shape[1] == n, second.shape[1] == m))
    vc.eq("equal samples are mapped equally wherever they occur", first[0, k], second[0, j])
    vc.eq("the model is applied to the amplified input", second[0, j], model[0, j])
    whole = samples(amp.model(one))
    part = samples(amp.model(two))
    vc.eq("streams are processed independently", whole[i, k], part[0, j])
    if a[i, k] == 0:
        vc.eq("zero is mapped to zero", whole[i, k], 0)
        vc.eq("zero is mapped to zero when propagated", first[0, k], 0)


for _name, _make in MODELS.items():
    contract("C12", f"{_name}: samples are independent, zero stays zero", n=80, limit=80)(
        lambda vc, mk=_make: independent(vc, mk))


@contract("C12", "parameters are validated", n=40)
def validation(vc):
    v = vc.real("value", -5.0, 0.0, hi_open=True)
    vc.raises("negative gain", ValueError, lambda: PowerAmplifier(v))
    vc.raises("negative saturation", ValueError, lambda: ClippingPowerAmplifier(v))
    vc.raises("non-positive smoothness", ValueError, lambda: RappPowerAmplifier(v))
    vc.raises("non-positive smoothness", ValueError, lambda: RappPowerAmplifier(0.0))
    vc.raises("negative Saleh alpha", ValueError, lambda: SalehPowerAmplifier(v, 1.0, 1.0, 1.0))
    vc.raises("negative Saleh beta", ValueError, lambda: SalehPowerAmplifier(1.0, v, 1.0, 1.0))
