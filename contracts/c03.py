"""C03: constellation mapping is a unit-energy bijection and detection inverts it."""
import numpy as np
from pyvc.api import contract, bounded
from hermespy.modem.tools.psk_qam_mapping import PskQamMapping

KINDS = [(2, True), (4, True), (8, True), (16, True), (64, True), (256, True), (2, False), (4, False), (8, False), (16, False)]




def round_trip(vc, order, cplx):
    m = PskQamMapping(order, None, False, cplx)
    k = m.bits_per_symbol
    n = vc.int("symbols", 1, cap=20)
    bits = vc.bits("bits", n * k)
    j = vc.index("symbol", n)
    some = range(k)
    if vc.symbolic:
        # one dimension of the constellation at a time, one case per bit pattern
        step = 2 if cplx and order > 2 else 1
        some = range(vc.choice("dimension", range(step)), k, step)
        for b in some:
            vc.assume(bits[j * k + b] == vc.choice(f"bit {b}", [0, 1]))
    s = m.get_symbols(bits)
    vc.prove("one symbol per block of bits", s.shape[0] == n)
    out = m.detect_bits(s)
    vc.prove("one decision per bit", out.shape[0] == n * k)
    for b in some:
        vc.prove("noiseless symbols return the bits", (out[j * k + b] > 0) == (bits[j * k + b] == 1))


for _order, _cplx in KINDS:
    if (_order, _cplx) != (8, True):
        contract("C03", f"{_order}-{'QAM' if _cplx else 'PAM'} mapping and detecting", limit=120, n=60,
                 note="any number of symbols, all bit sequences")(lambda vc, o=_order, c=_cplx: round_trip(vc, o, c))


@contract("C03", "8-PSK mapping and detecting", limit=120, n=100, note="any number of symbols")
def round_trip_psk(vc):
    m = PskQamMapping(8)
    n = vc.int("symbols", 1, cap=20)
    bits = vc.bits("bits", n * 3)
    j = vc.index("symbol", n)
    if vc.symbolic:
        for b in range(3):
            vc.assume(bits[3 * j + b] == vc.choice(f"b{b}", [0, 1]))
    s = m.get_symbols(bits)
    vc.prove("one symbol per block of bits", s.shape[0] == n)
    out = m.detect_bits(s)
    vc.prove("one decision per bit", out.shape[0] == n * 3)
    for b in range(3):
        vc.prove("noiseless symbols return the bits", (out[j * 3 + b] > 0) == (bits[j * 3 + b] == 1))
NORMS = {(2, True): 1, (2, False): 1, (4, True): 2, (4, False): 5, (8, False): 21, (16, False): 85, (16, True): 10,
         (64, True): 42, (256, True): 170}


@contract("C03", "unit energy", n=20, note="orders up to 16; larger orders run-time checked")
def unit_energy(vc):
    order, cplx = vc.choice("order", [k for k in KINDS if k[0] <= 16] if vc.symbolic else KINDS)
    m = PskQamMapping(order, None, False, cplx)
    points = m.get_mapping()
    vc.prove("one point per symbol value", points.shape[0] == order)
    energy = vc.sum(order, lambda i: points[i].real * points[i].real + points[i].imag * points[i].imag)
    if vc.symbolic and order == 8 and cplx:
        vc.prove("average energy is one", vc.all(energy - order < 1e-9, order - energy < 1e-9))
    else:
        vc.same("average energy is one", energy, order * 1.0)
    if not vc.symbolic:
        k = m.bits_per_symbol
        for i in range(order):
            s = m.get_symbols(np.array([(i >> (k - 1 - b)) & 1 for b in range(k)]))
            vc.same("point i represents the bits of i", s, points[i:i + 1])


@contract("C03", "custom constellations", limit=60, n=200)
def custom(vc):
    order = vc.choice("order", [2, 4])
    points = vc.array("points", (order,), "c")
    energy = vc.sum(order, lambda i: points[i].real * points[i].real + points[i].imag * points[i].imag)
    vc.assume(energy > 1e-3)
    m = PskQamMapping(order, points)
    table = m.get_mapping()
    e2 = vc.sum(order, lambda i: table[i].real * table[i].real + table[i].imag * table[i].imag)
    vc.same("average energy is one", e2, order * 1.0)
    k = m.bits_per_symbol
    rx = vc.complex("received")
    out = m.detect_bits(vc.nparray([rx]))
    d = 0
    for b in range(k):
        d = 2 * d
        if out[b] > 0:
            d = d + 1

    def dist(p):
        return (rx.real - p.real) * (rx.real - p.real) + (rx.imag - p.imag) * (rx.imag - p.imag)
    for i in range(order):
        vc.le("the decided point is nearest", dist(table[d]), dist(table[i]))
    again = m.get_symbols(vc.nparray([(d >> (k - 1 - b)) & 1 for b in range(k)]))
    vc.same("the decided bits map to the decided point", again[0], table[d])


@contract("C03", "8-PSK decides for the nearest point", limit=100, n=200)
def psk_nearest(vc):
    m = PskQamMapping(8)
    table = m.get_mapping()
    rx = vc.complex("received")
    out = m.detect_bits(vc.nparray([rx]))
    d = 0
    for b in range(3):
        d = 2 * d
        if out[b] > 0:
            d = d + 1

    def dist(p):
        return (rx.real - p.real) * (rx.real - p.real) + (rx.imag - p.imag) * (rx.imag - p.imag)
    for i in range(8):
        vc.le("the decided point is nearest", dist(table[d]), dist(table[i]))


def qam_nearest(vc, order, cplx):
    norm = NORMS[order, cplx]
    m = PskQamMapping(order, None, False, cplx)
    two = cplx and order > 2
    side = round(order ** 0.5) if two else order
    scale = np.sqrt(norm)
    t = vc.real("amplitude")  # the received amplitude in units of half the point distance
    other = vc.real("quadrature amplitude")
    imag = vc.choice("dimension", [False, True]) if two else False
    rx = (other + 1j * t if imag else t + 1j * other) / scale
    n = 0
    for edge in range(2 - side, side, 2):  # cases of the amplitude
        if t > edge:
            n += 1
    mid = 0
    for edge in range(1 - side, side, 2):
        if t > edge:
            mid += 1
    out = m.detect_bits(vc.nparray([rx]))
    k = m.bits_per_symbol
    bits = [0] * k
    for b in range(k):
        if not two or b % 2 == (1 if imag else 0):
            bits[b] = 1 if out[b] > 0 else 0
    point = m.get_symbols(vc.nparray(bits))[0] * scale
    d = point.imag if imag else point.real
    for i in range(side):
        a = 2 * i + 1 - side
        vc.le("the decided point is nearest", (t - d) * (t - d), (t - a) * (t - a))


for _order, _cplx in sorted(NORMS):
    contract("C03", f"{_order}-{'QAM' if _cplx else 'PAM'} decides for the nearest point", limit=120, n=60,
             note="any received symbol")(lambda vc, o=_order, c=_cplx: qam_nearest(vc, o, c))


@contract("C03", "soft detection", limit=120, n=300, note="any received symbols and noise variances")
def soft(vc):
    order, cplx = vc.choice("order", sorted(NORMS))
    n = vc.int("symbols", 1, cap=12)
    rx = vc.array("received", (n,), "c")
    nv = vc.array("noise", (n,), "f", 0.01, 100.)
    m = PskQamMapping(order, None, True, cplx)
    k = m.bits_per_symbol
    llr, unit = m.detect_bits(rx, nv), m.detect_bits(rx)
    hard = PskQamMapping(order, None, False, cplx).detect_bits(rx, nv)
    j = vc.index("symbol", n)
    b = vc.choice("bit", range(k))
    vc.same("scales inversely with the noise variance", llr[j * k + b] * nv[j], unit[j * k + b])
    vc.prove("hard and soft decisions agree", (hard[j * k + b] > 0) == (llr[j * k + b] > 0))


@contract("C03", "invalid configurations are rejected", n=30)
def rejects(vc):
    vc.raises("orders must be powers of two", ValueError, lambda: PskQamMapping(vc.choice("bad", [0, 3, 6, 12, 255])))
    vc.raises("no default constellation", ValueError, lambda: PskQamMapping(32))
    vc.raises("no default real constellation", ValueError, lambda: PskQamMapping(64, None, False, False))
    vc.raises("one point per value", ValueError, lambda: PskQamMapping(4, np.ones(3)))
    vc.raises("soft output needs a default constellation", RuntimeError,
              lambda: PskQamMapping(8, None, True).detect_bits(np.ones(2) + 0j))
