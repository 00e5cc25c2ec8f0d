"""C24: chirp FSK maps bits to tones one-to-one and recovers them."""
import numpy as np
from pyvc.api import contract, bounded
from hermespy.modem.symbols import StatedSymbols, Symbols
from hermespy.modem.waveform_chirp_fsk import ChirpFSKWaveform

BW = 4.0


def waveform(order, length, pilots, data, guard=0.0, difference=0.0):
    """A waveform of the given chirp length in units of the inverse bandwidth."""
    return ChirpFSKWaveform(chirp_duration=length / BW, freq_difference=difference, num_pilot_chirps=pilots,
                            num_data_chirps=data, guard_interval=guard / BW, modulation_order=order)


def tones(order, length, factor, difference=0.0):
    """The chirps of all symbols, each taken from a frame of a single chirp."""
    w = waveform(order, length, 0, 1, 0.0, difference)
    return [w.modulate(Symbols(np.array([[[s]]])), BW, factor) for s in range(order)]


CASES = [(2, 2, 1, 0.0), (4, 2, 2, 0.0), (4, 3, 1, 0.5)]
for O, L, F, D in CASES:
    try:
        # Fills the cache of tones with numbers, so that proofs do not have to deal with the phases of tones
        ChirpFSKWaveform._prototypes(BW, F, L / BW, O.bit_length() - 1, O, D, L * F)
    except Exception:
        pass


def symbols_of(v):
    return Symbols(v[np.newaxis, np.newaxis, :])


for ORDER in (2, 4, 8, 16, 64, 512):
    @contract("C24", f"bits of {ORDER} tones", n=30, limit=60)
    def bits(vc, order=ORDER):
        b = order.bit_length() - 1
        n = vc.int("symbols", 1, cap=6)
        w = waveform(order, 8, 0, 1)
        x = vc.array("bits", (n * b,), "i", 0, 1)
        s = w.map(x)
        vc.prove("bits per symbol", w.bits_per_symbol == b)
        vc.prove("one symbol per block of bits", vc.all(s.num_streams == 1, s.num_blocks == 1, s.num_symbols == n))
        k = vc.index("symbol", n)
        tone = s.raw[0, 0, k]
        vc.eq("the first bit is the most significant one", tone.real, 1.0 * sum(x[b * k + i] * 2 ** (b - 1 - i) for i in range(b)))
        vc.prove("every symbol is within the alphabet", vc.all(tone.real >= 0, tone.real < order))
        y = w.unmap(s)
        vc.prove("as many bits", y.shape[0] == n * b)
        for i in range(b):
            vc.eq("bits are recovered", y[b * k + i] * 1.0, x[b * k + i] * 1.0)

    @contract("C24", f"symbols of {ORDER} tones", n=30, limit=60)
    def tone_symbols(vc, order=ORDER):
        n = vc.int("symbols", 1, cap=6)
        w = waveform(order, 8, 0, 1)
        x = vc.array("tones", (n,), "i", 0, order - 1)
        s = w.map(w.unmap(symbols_of(x)))
        k = vc.index("symbol", n)
        vc.eq("symbols are recovered", s.raw[0, 0, k].real * 1.0, x[k] * 1.0)


for CASE in CASES:
    for PART in ("pilots", "data", "guard"):
        @contract("C24", f"{PART} of frames with {CASE[0]} tones of {CASE[1] * CASE[2]} samples, difference {CASE[3]}", n=40, limit=90)
        def frame(vc, case=CASE, part=PART):
            order, length, factor, difference = case
            size = length * factor
            t = tones(order, length, factor, difference)
            pilots, data = vc.int("pilots", 0, cap=6), vc.int("data", 1, cap=6)
            guard = vc.choice("guard", [0, 1, 3]) if part == "guard" else 1
            w = waveform(order, length, pilots, data, guard, difference)
            x = vc.array("tones", (data,), "i", 0, order - 1)
            f = w.modulate(symbols_of(x), BW, factor)
            if part == "pilots":
                j, s, p = vc.choice("sample of the chirp", range(size)), vc.choice("tone", range(order)), vc.index("pilot", pilots)
                vc.assume(p % order == s)
                vc.eq("pilots cycle through the tones", f[p * size + j], t[s][j], tol=1e-9)
                vc.eq("the pilot signal starts the frame", w.pilot_signal(BW, factor).view(np.ndarray)[0, p * size + j], t[s][j],
                      tol=1e-9)
            elif part == "data":
                j, s, d = vc.choice("sample of the chirp", range(size)), vc.choice("tone", range(order)), vc.index("chirp", data)
                vc.assume(x[d] == s)
                vc.eq("each symbol is sent as its tone", f[(pilots + d) * size + j], t[s][j], tol=1e-9)
            else:
                vc.prove("as many samples as announced", vc.all(f.shape[0] == w.samples_per_frame(BW, factor),
                                                                f.shape[0] == size * (pilots + data) + guard * factor))
                vc.prove("numbers of chirps", vc.all(w.chirps_in_frame == pilots + data, w.num_data_symbols == data,
                                                     w.samples_in_chirp(BW, factor) == size))
                vc.eq("announced duration", w.frame_duration(BW) * BW * factor, f.shape[0] * 1.0, tol=1e-6)
                if guard > 0:
                    g = vc.index("guard sample", guard * factor)
                    vc.eq("the guard interval is silent", f[(pilots + data) * size + g], 0j)

    @contract("C24", f"noiseless reception of {CASE[0]} tones of {CASE[1] * CASE[2]} samples, difference {CASE[3]}", n=40, limit=300)
    def reception(vc, case=CASE):
        order, length, factor, difference = case
        pilots, data = vc.int("pilots", 0, cap=6), vc.int("data", 1, cap=6)
        w = waveform(order, length, pilots, data, 0.0, difference)
        x = vc.array("tones", (data,), "i", 0, order - 1)
        d, s = vc.index("chirp", data), vc.choice("tone", range(order))
        vc.assume(x[d] == s)
        r = w.demodulate(w.modulate(symbols_of(x), BW, factor), BW, factor)
        vc.prove("as many symbols", vc.all(r.num_symbols == data, r.num_streams == 1))
        vc.eq("the symbol is recovered", r.raw[0, 0, d].real * 1.0, s * 1.0)


@contract("C24", "announced energies and numbers", n=60, limit=60)
def announced(vc):
    order, length, factor = vc.choice("parameters", [(2, 2, 1), (4, 4, 1), (16, 8, 2)])
    pilots, data = vc.int("pilots", 0, cap=9), vc.int("data", 0, cap=9)
    w = waveform(order, length, pilots, data)
    b = order.bit_length() - 1
    vc.prove("bits per frame", vc.all(w.bits_per_frame(data) == b * data, w.num_data_symbols == data))
    for tone in tones(order, length, factor):
        energy = sum(abs(v) ** 2 for v in tone)
        vc.eq("energy of a symbol", energy, w.symbol_energy(BW, factor) * 1.0, tol=1e-9)
        vc.eq("power of a symbol", energy / (length * factor), w.power, tol=1e-9)
        vc.eq("energy of a bit", energy / b, w.bit_energy(BW, factor) * 1.0, tol=1e-9)


@contract("C24", "symbols are placed as they are", n=20, limit=30)
def placing(vc):
    n = vc.int("symbols", 1, cap=6)
    x = vc.array("tones", (n,), "i", 0, 15)
    w = waveform(16, 8, 1, n)
    k = vc.index("symbol", n)
    placed = w.place(symbols_of(x))
    vc.prove("as many symbols", placed.num_symbols == n)
    vc.eq("placed symbols", placed.raw[0, 0, k], x[k])
    picked = w.pick(StatedSymbols(placed.raw, np.ones((1, 1, 1, n))))
    vc.prove("as many picked symbols", picked.num_symbols == n)
    vc.eq("picked symbols", picked.raw[0, 0, k], x[k])


@contract("C24", "parameters are kept or rejected", n=60, limit=60)
def parameters(vc):
    w = waveform(4, 8, 2, 3, 1.0, 0.5)
    what = vc.choice("parameter", ["chirp_duration", "freq_difference", "num_pilot_chirps", "num_data_chirps", "guard_interval"])
    v = vc.int("value", -3, 5) if what.startswith("num") else vc.real("value", -3.0, 5.0)
    old = getattr(w, what)
    if v < 0:
        vc.raises("negative values are rejected", ValueError, lambda: setattr(w, what, v))
        vc.prove("the parameter is kept", getattr(w, what) == old)
    else:
        setattr(w, what, v)
        vc.prove("the parameter is set", getattr(w, what) == v)


@bounded("C24", "random waveforms", n=150, budget=30, bound="150 random waveforms of up to 1024 tones")
def waveforms(vc):
    rng = vc.rng
    b = int(rng.integers(1, 11))
    order, factor = 2 ** b, int(rng.integers(1, 5))
    bw = float(10 ** rng.uniform(3, 9))
    length = order * int(rng.integers(1, 4)) / (2 if order > 4 else 1)
    pilots, data, guard = int(rng.integers(0, 6)), int(rng.integers(1, 9)), int(rng.integers(0, 6))
    w = ChirpFSKWaveform(chirp_duration=length / bw, num_pilot_chirps=pilots, num_data_chirps=data, guard_interval=guard / bw,
                         modulation_order=order)
    size = w.samples_in_chirp(bw, factor)
    vc.prove("samples of a chirp", abs(size - length * factor) <= 1)
    x = rng.integers(0, 2, b * data)
    s = w.map(x)
    junk = np.full(4096, 1e3 + 1e3j)
    del junk
    f = w.modulate(w.place(s), bw, factor)
    vc.prove("as many samples as announced", f.size == w.samples_per_frame(bw, factor) == size * (pilots + data) + guard * factor)
    used = size * (pilots + data)
    vc.prove("unit power", bool(np.allclose(abs(f[:used]), 1.0)))
    vc.prove("silent guard", bool(np.all(f[used:] == 0)))
    vc.prove("duration", abs(w.frame_duration(bw) * bw * factor - f.size) <= pilots + data + 1e-6)
    r = w.pick(StatedSymbols(w.demodulate(f * np.exp(2j * np.pi * rng.uniform()) * rng.uniform(0.1, 10), bw, factor).raw,
                             np.ones((1, 1, 1, data))))
    vc.prove("bits are recovered", bool(np.array_equal(w.unmap(r), x)))
    # Tones start at their frequencies and sweep the whole band once
    t = np.arange(size) / (bw * factor)
    for k, tone in enumerate(s.raw[0, 0].real.astype(int)[:3]):
        seg = f[(pilots + k) * size: (pilots + k + 1) * size]
        step = np.angle(seg[1:] * seg[:-1].conj()) * bw * factor / (2 * np.pi)
        want = -0.5 * bw + tone * bw / order + t * bw / (length / bw)
        want[want > 0.5 * bw] -= bw
        mid = 0.5 * (want[1:] + want[:-1])
        err = (step - mid + 0.5 * bw * factor) % (bw * factor) - 0.5 * bw * factor
        # Away from the wrap-around at the upper band edge
        inner = (abs(abs(want) - 0.5 * bw) > 1e-6 * bw)
        inner = inner[1:] & inner[:-1] & (np.diff(want) > 0)
        vc.prove("instantaneous frequency", bool(np.all(abs(err[inner]) < 1e-6 * bw)))
