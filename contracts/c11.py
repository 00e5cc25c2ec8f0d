"""C11: analog-to-digital conversion is a bounded, monotone quantiser."""
import numpy as np
from pyvc.api import contract, bounded
from hermespy.simulation.rf.blocks.ad import (ADC, DAC, Gain, AutomaticGainControl, GainControlType, QuantizerType)
from hermespy.simulation.rf.signal import RFSignal

MR, MT = QuantizerType.MID_RISER, QuantizerType.MID_TREAD
BITS = list(range(1, 17))


def setup(vc, kind, lo=-3.0, hi=3.0):
    b = vc.choice("bits", BITS)
    levels = 2 ** b
    step = 2.0 / levels if kind == MR else 2.0 / (levels + 1)
    return b, levels, step


def quantise(adc, x):
    """The converter's propagation of a signal holding the samples x."""
    s = RFSignal.FromNDArray(x, 1.0)
    return adc._propagate(None, s).view(np.ndarray)


def scaled_part(vc, name, step, lo=None, hi=None):
    """An arbitrary real, written as a multiple of the quantisation step, and that multiple."""
    u = vc.real(name, lo, hi)
    if not vc.symbolic and vc.values is None and abs(2 * u - round(2 * u)) < 1e-6:
        u += 1e-3  # where levels meet, floating point decides by rounding errors of the step
        u = u if hi is None else min(u, hi)
        vc.drawn[name] = u
    return u * step, u


def level(u, num, kind):
    """The number of the level a part of u steps is quantised to."""
    return np.clip(np.floor(u) if kind == MR else np.floor(u + 0.5), -(num // 2), num // 2 - 1)


def _kind(kind):
    off = 0.5 if kind == MR else 0.0

    def span(num):
        # reals to draw from: inside and beyond full scale
        return (None, None) if num > 64 else (-float(num), float(num))

    @contract("C11", f"{kind.name}: output sits on one of 2^b levels within full scale", n=300, limit=200,
              note="1 to 16 bits")
    def levels(vc):
        b, num, step = setup(vc, kind)
        n = vc.int("samples", 1, cap=6)
        x = vc.array("x", (2, n), "c")
        k, i = vc.index("sample", n), vc.choice("stream", [0, 1])
        p, u = scaled_part(vc, "re", step, *span(num))
        q, v = scaled_part(vc, "im", step, *span(num))
        x[i, k] = p + 1j * q
        before = x[i, k] + 0
        y = quantise(ADC(b, Gain(1.0), kind, num_ports=2), x)
        vc.prove("shape is kept", vc.all(y.shape[0] == 2, y.shape[1] == n))
        vc.eq("input is untouched", x[i, k], before)
        for out, w in ((y[i, k].real, u), (y[i, k].imag, v)):
            idx = level(w, num, kind)
            vc.eq("on the level it falls to", out, step * (idx + off), tol=1e-9 * step)
            vc.le("within full scale (above)", out, 1.0)
            vc.le("within full scale (below)", -1.0, out)
            vc.le("not below the lowest of 2^b levels", -(num // 2), idx)
            vc.le("not above the highest of 2^b levels", idx, -(num // 2) + num - 1)

    @contract("C11", f"{kind.name}: inputs at and beyond full scale", n=100, limit=200, note="1 to 16 bits")
    def edges(vc):
        b, num, step = setup(vc, kind)
        at = vc.choice("at", [1.0, -1.0, 1e6, -1e6, 1.0 - step, step - 1.0, np.nextafter(1.0, 2.0),
                              np.nextafter(1.0, 0.0), np.nextafter(-1.0, 0.0), np.nextafter(-1.0, -2.0)])
        x = np.zeros((1, 1), dtype=np.complex128)
        x[0, 0] = at - 1j * at
        y = quantise(ADC(b, Gain(1.0), kind), x)
        for part in (y[0, 0].real, y[0, 0].imag):
            idx = np.floor(part / step + 0.25)
            vc.le("on a level", abs(part / step - off - idx), 1e-6)
            vc.le("not below the lowest of 2^b levels", -(num // 2), idx)
            vc.le("not above the highest of 2^b levels", idx, -(num // 2) + num - 1)

    @contract("C11", f"{kind.name}: monotone", n=300, limit=200, note="1 to 16 bits")
    def monotone(vc):
        b, num, step = setup(vc, kind)
        p0, u0 = scaled_part(vc, "a", step, *span(num))
        p1, u1 = scaled_part(vc, "b", step, *span(num))
        im = vc.choice("part", [False, True])
        x = np.zeros((1, 2), dtype=np.complex128)
        x[0, 0] = 1j * p0 if im else p0
        x[0, 1] = 1j * p1 if im else p1
        vc.assume(u0 <= u1)
        vc.cut("whole parts are ordered", ("<=", np.floor(u0 + (0.5 - off)), np.floor(u1 + (0.5 - off))))
        y = quantise(ADC(b, Gain(1.0), kind), x)
        y0, y1 = (y[0, 0].imag, y[0, 1].imag) if im else (y[0, 0].real, y[0, 1].real)
        l0, l1 = level(u0, num, kind), level(u1, num, kind)
        vc.le("levels are non-decreasing", l0, l1)
        y0 = vc.via("level of the smaller", y0, step * (l0 + off))
        y1 = vc.via("level of the larger", y1, step * (l1 + off))
        vc.le("output is non-decreasing", y0, y1)

    @contract("C11", f"{kind.name}: error is at most half a step when not clipped", n=300, limit=200,
              note="1 to 16 bits")
    def error(vc):
        b, num, step = setup(vc, kind)
        lo, hi = (-num / 2, num / 2) if kind == MR else (-num / 2 - 0.5, num / 2 - 0.5)
        p, u = scaled_part(vc, "re", step, lo, hi)
        q, v = scaled_part(vc, "im", step, lo, hi)
        x = np.zeros((1, 1), dtype=np.complex128)
        x[0, 0] = p + 1j * q
        y = quantise(ADC(b, Gain(1.0), kind), x)
        for out, w in ((y[0, 0].real, p), (y[0, 0].imag, q)):
            vc.le("from above", out - w, step / 2)
            vc.le("from below", w - out, step / 2)

    @contract("C11", f"{kind.name}: samples and parts do not influence each other", n=120, limit=200,
              note="1 to 16 bits")
    def independent(vc):
        b, num, step = setup(vc, kind)
        n = vc.int("samples", 1, cap=6)
        x = vc.array("x", (2, n), "c")
        z = vc.array("z", (2, n), "c")
        k, i = vc.index("sample", n), vc.choice("stream", [0, 1])
        part = vc.choice("part", ["re", "im"])
        if part == "re":
            z[i, k] = x[i, k].real + 1j * z[i, k].imag
        else:
            z[i, k] = z[i, k].real + 1j * x[i, k].imag
        a = quantise(ADC(b, Gain(1.0), kind, num_ports=2), x)[i, k]
        c = quantise(ADC(b, Gain(1.0), kind, num_ports=2), z)[i, k]
        if part == "re":
            vc.eq("in-phase part depends on its own sample only", a.real, c.real)
        else:
            vc.eq("quadrature part depends on its own sample only", a.imag, c.imag)


for _k in (MR, MT):
    _kind(_k)


@contract("C11", "no quantisation bits pass samples unchanged", n=60)
def unquantised(vc):
    n = vc.int("samples", 1, cap=6)
    x = vc.array("x", (2, n), "c")
    k, i = vc.index("sample", n), vc.choice("stream", [0, 1])
    bits = vc.choice("bits", [None, 0])
    y = quantise(ADC(bits, None, vc.choice("kind", [MR, MT]), num_ports=2), x)
    vc.eq("unchanged", y[i, k], x[i, k])


@contract("C11", "fixed gain scales before and optionally after quantisation", n=150, limit=100)
def fixed_gain(vc):
    kind = vc.choice("kind", [MR, MT])
    b = vc.choice("bits", [None, 1, 3, 8])
    g = vc.real("gain", 0.1, 8.0)
    rescale = vc.choice("rescale", [False, True])
    n = vc.int("samples", 1, cap=6)
    x = vc.array("x", (1, n), "c")
    k = vc.index("sample", n)
    scaled = x * g
    plain = quantise(ADC(b, Gain(1.0), kind), scaled)[0, k]
    out = quantise(ADC(b, Gain(g, rescale), kind), x)[0, k]
    vc.eq("the quantiser sees the scaled samples", out, plain / g if rescale else plain)


@contract("C11", "gain control maps the peak to the inverse backoff", n=200, limit=100)
def agc_peak(vc):
    backoff = vc.real("backoff", 0.25, 4.0)
    n = vc.int("samples", 1, cap=6)
    x = vc.array("x", (2, n), "c")
    if vc.choice("silent", [False, True]):
        x[:] = 0.0
    k, i = vc.index("sample", n), vc.choice("stream", [0, 1])
    agc = AutomaticGainControl(GainControlType.MAX_AMPLITUDE, backoff)
    s = RFSignal.FromNDArray(x, 1.0)
    gain = agc.estimate_gain(s)
    y = agc.adjust_signal(s, gain).view(np.ndarray)
    vc.prove("gain is positive", gain > 0)
    vc.eq("adjusting multiplies by the gain", y[i, k], x[i, k] * gain)
    peak = max(np.abs(np.real(x)).max(), np.abs(np.imag(x)).max())
    if peak > 0:
        vc.eq("peak of all parts maps to the inverse backoff", peak * gain * backoff, 1.0)
    else:
        vc.eq("silence is not amplified", gain, 1.0)


@contract("C11", "gain control maps the root mean square to the inverse backoff", n=200, limit=100,
          bound="up to 3 streams of up to 3 samples")
def agc_rms(vc):
    backoff = vc.real("backoff", 0.25, 4.0)
    m, n = vc.choice("streams", [1, 2, 3]), vc.choice("samples", [1, 2, 3])
    x = vc.array("x", (m, n), "c")
    agc = AutomaticGainControl(GainControlType.RMS_AMPLITUDE, backoff)
    s = RFSignal.FromNDArray(x, 1.0)
    re2 = sum(x[i, k].real ** 2 for i in range(m) for k in range(n)) / (m * n)
    im2 = sum(x[i, k].imag ** 2 for i in range(m) for k in range(n)) / (m * n)
    top = re2 if re2 >= im2 else im2
    loud = bool(top > 0)
    gain = agc.estimate_gain(s)
    vc.prove("gain is positive", gain > 0)
    if loud:
        vc.eq("mean square of the stronger part maps to the squared inverse backoff",
              top * (gain * backoff) ** 2, 1.0)
    else:
        vc.eq("silence is not amplified", gain, 1.0)


@contract("C11", "automatic gain feeds the quantiser", n=150, limit=100)
def agc_adc(vc):
    kind = vc.choice("kind", [MR, MT])
    b = vc.choice("bits", [1, 4])
    rescale = vc.choice("rescale", [False, True])
    agc = AutomaticGainControl(GainControlType.MAX_AMPLITUDE, vc.real("backoff", 0.5, 2.0), rescale)
    n = vc.int("samples", 1, cap=6)
    x = vc.array("x", (1, n), "c")
    k = vc.index("sample", n)
    gain = agc.estimate_gain(RFSignal.FromNDArray(x, 1.0))
    a = quantise(ADC(b, Gain(gain, rescale), kind), x)[0, k]
    y = quantise(ADC(b, agc, kind), x)[0, k]
    vc.eq("same as the estimated fixed gain", y, a)


@contract("C11", "digital-to-analog conversion passes samples", n=40)
def dac(vc):
    n = vc.int("samples", 1, cap=6)
    x = vc.array("x", (2, n), "c")
    k, i = vc.index("sample", n), vc.choice("stream", [0, 1])
    y = DAC(vc.choice("bits", [None, 1, 8]), 2)._propagate(None, RFSignal.FromNDArray(x, 1.0)).view(np.ndarray)
    vc.eq("unchanged", y[i, k], x[i, k])


@contract("C11", "unusable parameters are refused", n=60)
def refused(vc):
    what = vc.choice("what", ["bits", "fraction", "gain", "backoff"])
    if what == "bits":
        vc.raises("negative bits", ValueError, lambda: ADC(vc.int("v", -9, -1)))
    elif what == "fraction":
        vc.raises("fractional bits", ValueError, lambda: ADC(2.5))
    elif what == "gain":
        vc.raises("non-positive gain", ValueError, lambda: Gain(vc.real("v", -5.0, 0.0)))
    else:
        vc.raises("non-positive backoff", ValueError,
                  lambda: AutomaticGainControl(backoff=vc.real("v", -5.0, 0.0)))


@bounded("C11", "conversion through the block interface", n=120,
         bound="up to 3 streams of up to 64 samples, 1 to 14 bits")
def interface(vc):
    rng = vc.rng
    kind = vc.choice("kind", [MR, MT])
    b = vc.choice("bits", list(range(1, 15)))
    m, n = vc.choice("streams", [1, 2, 3]), vc.choice("samples", [1, 2, 17, 64])
    x = vc.array("x", (m, n), "c")
    mode = vc.choice("gain", ["fixed", "max", "rms"])
    backoff = vc.real("backoff", 0.5, 2.0)
    gc = Gain(backoff) if mode == "fixed" else AutomaticGainControl(
        GainControlType.MAX_AMPLITUDE if mode == "max" else GainControlType.RMS_AMPLITUDE, backoff)
    adc = ADC(b, gc, kind, num_ports=m, seed=1)
    s = RFSignal.FromNDArray(x, 1e3)
    y = adc.propagate(adc.realize(1e3, 1, 0.0), s).view(np.ndarray)
    if mode == "fixed":
        g = backoff
    else:
        parts = [x.real, x.imag]
        amp = max(np.max(np.abs(p)) if mode == "max" else np.sqrt(np.mean(p ** 2)) for p in parts)
        g = 1 / (amp * backoff) if amp > 0 else 1.0
    step = 2.0 / 2 ** b if kind == MR else 2.0 / (2 ** b + 1)
    for u, v in ((x.real * g, y.real), (x.imag * g, y.imag)):
        vc.prove("within full scale", bool(np.all(np.abs(v) <= 1 + 1e-12)))
        vc.prove("at most 2^b amplitudes", len(np.unique(np.round(v / step * 4))) <= 2 ** b)
        inside = (u >= -1) & (u <= (1 if kind == MR else 1 - step))
        vc.prove("half a step", bool(np.all(np.abs(u - v)[inside] <= step / 2 + 1e-9)))
        order = np.argsort(u.flatten())
        vc.prove("monotone", bool(np.all(np.diff(v.flatten()[order]) >= -1e-9)))
