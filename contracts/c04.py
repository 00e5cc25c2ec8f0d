"""C04: orthogonal resource grids place and recover every data symbol exactly once."""
import numpy as np
from pyvc.api import contract, bounded
from hermespy.modem import ElementType, GridElement, GridResource, GuardSection, PrefixType, Symbols, SymbolSection
from hermespy.modem import CustomPilotSymbolSequence
from hermespy.modem.symbols import StatedSymbols
from hermespy.modem.waveforms.orthogonal.ocdm import OCDMWaveform
from hermespy.modem.waveforms.orthogonal.ofdm import OFDMWaveform, SchmidlCoxPilotSection
from hermespy.modem.waveforms.orthogonal.otfs import OTFSWaveform
from hermespy.modem.waveforms.orthogonal.waveform import PilotSection

BW = 4.0
D, R, N = ElementType.DATA, ElementType.REFERENCE, ElementType.NULL
CY, ZP, NO = PrefixType.CYCLIC, PrefixType.ZEROPAD, PrefixType.NONE

# Resources as (repetitions, prefix type, prefix ratio, elements), sections as (repetitions, pattern) or guard samples
Q, H = .25, .5
LAYOUTS = {
    "one data word": (4, [(1, CY, Q, [(D, 4)])], [(1, [0])]),
    "repeated data words": (4, [(1, CY, H, [(D, 4)])], [(2, [0, 0])]),
    "repeated elements": (4, [(2, ZP, Q, [(D, 1), (R, 1)])], [(1, [0])]),
    "data, reference and null": (4, [(1, NO, Q, [(R, 1), (D, 2), (N, 1)]), (2, CY, H, [(N, 1), (D, 1)])], [(1, [0, 1, 0])]),
    "roles change between words": (4, [(1, CY, Q, [(D, 1), (R, 3)]), (1, ZP, Q, [(R, 2), (D, 2)])], [(2, [1, 0])]),
    "short resources": (4, [(1, CY, Q, [(D, 2)]), (1, NO, 0., [(R, 1), (D, 2)])], [(1, [0, 1]), (1, [0])]),
    "guards between sections": (4, [(1, ZP, Q, [(D, 3), (R, 1)]), (1, NO, H, [(D, 4)])], [2, (1, [0]), 3, (2, [1]), 1]),
    "references only": (4, [(4, CY, Q, [(R, 1)]), (2, CY, 0., [(D, 1), (N, 1)])], [(1, [0]), (2, [1])]),
    "interleaved": (4, [(1, CY, 1., [(D, 1), (N, 1), (D, 1), (R, 1)])], [(3, [0])]),
    "one subcarrier": (1, [(1, CY, 1., [(D, 1)]), (1, NO, 1., [(R, 1)])], [(2, [0, 1])]),
}
ROLES = {"resources", "patterns"}


class Layout:
    """What a configuration of a grid is supposed to mean, word by word and subcarrier by subcarrier."""

    def __init__(self, n, resources, sections):
        self.n, self.resources, self.sections = n, resources, sections
        self.words = []     # (roles of the subcarriers, prefix type, prefix ratio)
        self.frame = []     # ("word", index) or ("guard", samples at unit oversampling)
        for s in sections:
            if isinstance(s, (int, float)):
                self.frame.append(("guard", s))
                continue
            for r in list(s[1]) * s[0]:
                reps, kind, ratio, elements = resources[r]
                self.frame.append(("word", len(self.words)))
                self.words.append(([t for t, k in elements for _ in range(k)] * reps, kind, ratio))

    def slots(self, role):
        return [(w, k) for w, (roles, _, _) in enumerate(self.words) for k, t in enumerate(roles) if t is role]

    def prefix(self, w, factor):
        return 0 if self.words[w][1] is NO else int(self.n * factor * self.words[w][2])

    def size(self, factor):
        return sum(self.prefix(i, factor) + self.n * factor if what == "word" else int(i / BW * BW * factor) for what, i in self.frame)

    def wave(self, cls=OFDMWaveform, offsets=None, **kw):
        res = [GridResource(reps, kind, ratio, [GridElement(t, k) for t, k in el]) for reps, kind, ratio, el in self.resources]
        sec = []
        for i, s in enumerate(self.sections):
            sec.append(GuardSection(s / BW) if isinstance(s, (int, float))
                       else SymbolSection(s[0], list(s[1]), 0 if offsets is None else offsets[i]))
        kw.setdefault("modulation_order", 4)
        return cls(grid_resources=res, grid_structure=sec, num_subcarriers=self.n, **kw)


def symbols_of(v):
    return Symbols(v[np.newaxis, :, np.newaxis])


def at(x, slot):
    return x[0, slot[0], slot[1]]


for NAME in LAYOUTS:
    @contract("C04", f"grid of {NAME}", n=20, limit=90)
    def grid(vc, name=NAME):
        lay = Layout(*LAYOUTS[name])
        data, refs, nulls = (lay.slots(t) for t in (D, R, N))
        w = lay.wave()
        p = vc.array("references", (max(1, len(refs)),), "c")
        w.pilot_symbol_sequence = CustomPilotSymbolSequence(p)
        vc.prove("number of data symbols", w.num_data_symbols == len(data))
        vc.prove("number of reference symbols", w.references_per_frame == len(refs))
        vc.prove("number of symbols", w.symbols_per_frame == len(data) + len(refs))
        vc.prove("number of words", w.words_per_frame == len(lay.words))
        m = w.resource_mask
        for t in (D, R, N):
            s = lay.slots(t)
            vc.prove("roles of the grid", vc.all(*[bool(m[t.value, i, k]) == ((i, k) in s)
                                                   for i in range(len(lay.words)) for k in range(lay.n)]))
        x = vc.array("symbols", (len(data),), "c")
        g = w.place(symbols_of(x)).raw
        vc.prove("size of the grid", g.shape == (1, len(lay.words), lay.n))
        for i, s in enumerate(data):
            vc.eq("data symbols are placed in order", at(g, s), x[i])
        for i, s in enumerate(refs):
            vc.eq("reference symbols are placed in order", at(g, s), p[i])
        for s in [(i, k) for i in range(len(lay.words)) for k in range(lay.n)]:
            if s not in data and s not in refs:
                vc.eq("all else is empty", at(g, s), 0j)
        r = vc.array("received", (1, len(lay.words), lay.n), "c")
        h = vc.array("states", (1, 1, len(lay.words), lay.n), "c")
        y = w.pick(StatedSymbols(r, h))
        vc.prove("number of picked symbols", y.num_symbols * y.num_blocks == len(data))
        for i, s in enumerate(data):
            vc.eq("data symbols are picked in order", y.raw[0, i, 0], at(r, s))
            vc.eq("states are picked in order", y.dense_states()[0, 0, i, 0], h[0, 0, s[0], s[1]])


def transmitted(vc, lay, w, factor, grid, pilot=None):
    """Check the frame sample by sample and return it."""
    f = w.modulate(Symbols(grid[np.newaxis]), BW, factor)
    k, m = 0, lay.n * factor
    total = lay.size(factor) + (0 if pilot is None else m)
    vc.prove("as many samples as announced", f.shape[0] == total)
    vc.prove("size of the frame", w.samples_per_frame(BW, factor) == total)
    vc.eq("duration of the frame", w.frame_duration(BW) * BW, (lay.size(1) + (0 if pilot is None else lay.n)) * 1.0, tol=1e-9)
    if pilot is not None:
        for i in range(m):
            vc.eq("the pilot starts the frame", f[i], pilot[i], tol=1e-9)
        k = m
    for what, i in lay.frame:
        if what == "guard":
            size = int(i / BW * BW * factor)
            for j in range(size):
                vc.eq("guards are empty", f[k + j], 0j)
            k += size
            continue
        p = lay.prefix(i, factor)
        for j in range(p):
            if lay.words[i][1] is CY:
                vc.eq("cyclic prefixes repeat the end of the word", f[k + j], f[k + m + j])
            else:
                vc.eq("zero prefixes are empty", f[k + j], 0j)
        k += p + m
    vc.prove("nothing else is sent", k == total)
    return f


def recovered(vc, lay, w, factor, frame, grid):
    y = w.demodulate(frame, BW, factor).raw
    vc.prove("size of the recovered grid", y.shape == (1, len(lay.words), lay.n))
    for i in range(len(lay.words)):
        for k in range(lay.n):
            vc.eq("the grid is recovered", y[0, i, k], grid[i, k], tol=1e-9)


for CLS in (OFDMWaveform, OTFSWaveform):
    for NAME in LAYOUTS:
        @contract("C04", f"{CLS.__name__} frame of {NAME}", n=12, limit=120)
        def frame(vc, cls=CLS, name=NAME):
            lay = Layout(*LAYOUTS[name])
            factor, dc = vc.choice("oversampling", [1, 2, 4]), vc.choice("suppression", [False, True])
            w = lay.wave(cls, dc_suppression=dc)
            g = vc.array("grid", (len(lay.words), lay.n), "c")
            recovered(vc, lay, w, factor, transmitted(vc, lay, w, factor, g), g)


class Symboled:
    """The modulated pilot, from a frame with a single word without prefix."""

    def __init__(self, cls, n, elements, **kw):
        self.wave = Layout(n, [(1, NO, 0., [(D, n)])], [(1, [0])]).wave(cls, **kw)
        self.elements = elements

    def samples(self, factor):
        return self.wave.modulate(Symbols(self.elements[np.newaxis, np.newaxis, :]), BW, factor)


for CLS in (OFDMWaveform, OTFSWaveform):
    @contract("C04", f"{CLS.__name__} pilots", n=20, limit=120)
    def pilots(vc, cls=CLS):
        lay = Layout(*LAYOUTS["guards between sections"])
        factor, dc = vc.choice("oversampling", [1, 2]), vc.choice("suppression", [False, True])
        w = lay.wave(cls, dc_suppression=dc)
        q = PilotSection(Symbols(vc.array("pilot", (1, lay.n, 1), "c")))
        w.pilot_section = q
        vc.prove("the section belongs to the waveform", w.pilot_section is q and q.wave is w)
        g = vc.array("grid", (len(lay.words), lay.n), "c")
        p = w.pilot_signal(BW, factor)
        vc.prove("rate of the pilot", p.sampling_rate == BW * factor)
        vc.prove("size of the pilot", p.num_samples == lay.n * factor)
        f = w.modulate(Symbols(g[np.newaxis]), BW, factor)
        vc.prove("size of the frame", f.shape[0] == w.samples_per_frame(BW, factor) == lay.size(factor) + lay.n * factor)
        vc.eq("duration of the frame", w.frame_duration(BW) * BW, (lay.size(1) + lay.n) * 1.0, tol=1e-9)
        recovered(vc, lay, w, factor, f, g)
        s = lay.wave(cls, dc_suppression=dc)
        e = s.modulate(Symbols(g[np.newaxis]), BW, factor)
        vc.prove("the pilot precedes the frame", f.shape[0] - lay.n * factor == e.shape[0])


def random_layout(rng, n):
    resources, factor = [], 1.0 / n
    for _ in range(rng.integers(1, 4)):
        reps = int(rng.integers(1, 3))
        elements, free = [], n // reps
        while free > 0 and (not elements or rng.random() < .8):
            k = int(rng.integers(1, free + 1))
            elements.append(([D, R, N][rng.integers(3)], k))
            free -= k
        if elements:
            resources.append((reps, [CY, ZP, NO][rng.integers(3)], float(rng.choice([0., factor, .25, .3, .5, 1.])), elements))
    if not resources:
        resources.append((1, CY, .25, [(D, n)]))
    sections = []
    for _ in range(rng.integers(1, 4)):
        if rng.random() < .3:
            sections.append(int(rng.integers(0, 6)))
        sections.append((int(rng.integers(1, 3)), [int(k) for k in rng.integers(0, len(resources), rng.integers(1, 4))]))
    if rng.random() < .4:
        sections.append(int(rng.integers(1, 6)))
    return Layout(n, resources, sections)


def frequencies(n, factor, dc):
    """Bins of the subcarriers: ascending around zero, leaving out zero if it is suppressed and there is room."""
    size = n * factor
    bins = [size // 2 - n // 2 + k for k in range(n)]
    if dc:
        mid = size // 2
        bins = [b if b < mid else mid + (b + 1 - mid) % (size - mid) for b in bins]
    return np.array([b - size // 2 for b in bins])


def subcarriers(words, n, factor, dc):
    """Each subcarrier is a complex oscillation over the duration of the word, all powers sum to that of the symbols."""
    t = np.arange(n * factor)
    return words @ np.exp(2j * np.pi * np.outer(frequencies(n, factor, dc), t) / (n * factor)) / np.sqrt(n)


def setting(vc, rng, cls):
    n, factor = int(rng.choice([1, 2, 3, 4, 5, 8, 12, 15])), int(rng.integers(1, 5))
    lay = random_layout(rng, n)
    kw = {} if cls is OCDMWaveform else dict(dc_suppression=bool(rng.integers(2)))
    g = rng.normal(size=(len(lay.words), n)) + 1j * rng.normal(size=(len(lay.words), n))
    return lay, factor, kw, g


for CLS in (OFDMWaveform, OCDMWaveform, OTFSWaveform):
    @bounded("C04", f"{CLS.__name__} frames", bound="random layouts of at most 15 subcarriers, oversampling at most 4", n=150, budget=20)
    def frames(vc, cls=CLS):
        rng = vc.rng
        lay, factor, kw, g = setting(vc, rng, cls)
        w = lay.wave(cls, **kw)
        pilot = None
        if rng.random() < .4:
            k = int(rng.integers(1, lay.n + 3))
            e = rng.normal(size=(1, k, 1)) + 0j
            w.pilot_section = PilotSection(Symbols(e))
            if rng.random() < .5:
                w.pilot_signal(BW, factor)
                e = e + 1j
                w.pilot_section.pilot_elements = Symbols(e)
            pilot = Symboled(cls, lay.n, np.resize(e.ravel(), lay.n), **kw).samples(factor)
            vc.eq("the pilot", w.pilot_signal(BW, factor).to_dense().view(np.ndarray)[0], pilot, tol=1e-9)
        recovered(vc, lay, w, factor, transmitted(vc, lay, w, factor, g, pilot), g)

    @bounded("C04", f"{CLS.__name__} data", bound="random layouts of at most 15 subcarriers, oversampling at most 4", n=150, budget=20)
    def data(vc, cls=CLS):
        rng = vc.rng
        lay, factor, kw, _ = setting(vc, rng, cls)
        order = int(rng.choice([2, 4, 16, 64]))
        w = lay.wave(cls, modulation_order=order, **kw)
        b, slots = w.mapping.bits_per_symbol, lay.slots(D)
        vc.prove("number of data symbols", w.num_data_symbols == len(slots) == w.symbols_per_frame - len(lay.slots(R)))
        vc.prove("number of reference symbols", w.references_per_frame == len(lay.slots(R)))
        vc.prove("number of bits", w.bits_per_frame(len(slots)) == b * len(slots))
        bits = rng.integers(0, 2, b * len(slots)).astype(np.uint8)
        if not slots:
            return
        s = w.place(w.map(bits))
        vc.prove("size of the grid", s.raw.shape == (1, w.words_per_frame, lay.n))
        y = w.demodulate(w.modulate(s, BW, factor), BW, factor)
        p = w.pick(StatedSymbols(y.raw, np.ones((1, 1, *y.raw.shape[1:]), dtype=complex)))
        vc.prove("number of picked symbols", p.raw.size == len(slots))
        vc.prove("all bits are recovered", np.array_equal(w.unmap(p), bits))


@bounded("C04", "subcarriers", bound="at most 15 subcarriers, oversampling at most 4", n=100, budget=10)
def oscillations(vc):
    rng = vc.rng
    lay, factor, kw, g = setting(vc, rng, OFDMWaveform)
    w = Layout(lay.n, [(1, NO, 0., [(D, lay.n)])], [(len(g), [0])]).wave(OFDMWaveform, **kw)
    f = w.modulate(Symbols(g[np.newaxis]), BW, factor)
    e = subcarriers(g, lay.n, factor, kw["dc_suppression"]).ravel()
    vc.prove("number of samples", f.shape == e.shape)
    for i in range(len(e)):
        vc.eq("each subcarrier is an oscillation", f[i], e[i], tol=1e-9)


@bounded("C04", "sample offsets", bound="random layouts of at most 15 subcarriers, offsets within cyclic prefixes", n=150, budget=20)
def shifted(vc):
    rng = vc.rng
    lay, factor, kw, g = setting(vc, rng, OFDMWaveform)
    offsets, w = [], 0
    for s in lay.sections:
        if isinstance(s, (int, float)):
            offsets.append(0)
            continue
        m = len(s[1]) * s[0]
        room = min(lay.prefix(i, factor) if lay.words[i][1] is CY else 0 for i in range(w, w + m))
        offsets.append(int(rng.integers(0, room + 1)))
        w += m
    w = lay.wave(OFDMWaveform, offsets, **kw)
    recovered(vc, lay, w, factor, transmitted(vc, lay, w, factor, g), g)


@bounded("C04", "changes of the configuration", bound="random reconfigurations", n=60, budget=10)
def reconfigured(vc):
    rng = vc.rng
    cls = [OFDMWaveform, OTFSWaveform][rng.integers(2)]
    lay, factor, kw, g = setting(vc, rng, cls)
    order = int(rng.choice([4, 16]))
    w, fresh = lay.wave(cls, **kw), lay.wave(cls, **dict(kw, dc_suppression=not kw["dc_suppression"], modulation_order=order))
    kind = SchmidlCoxPilotSection if rng.random() < .3 else PilotSection
    w.pilot_section, fresh.pilot_section = kind(), kind()
    if rng.random() < .5:
        w.pilot_section.pilot_elements = Symbols(np.ones((1, 3, 1), dtype=complex))
        w.pilot_section.pilot_elements = None
    w.pilot_signal(BW, factor)
    w.dc_suppression, w.modulation_order = not kw["dc_suppression"], order
    a, b = w.modulate(Symbols(g[np.newaxis]), BW, factor), fresh.modulate(Symbols(g[np.newaxis]), BW, factor)
    vc.prove("the frame is that of the current configuration", a.shape == b.shape and np.allclose(a, b, atol=1e-9))
