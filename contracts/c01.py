"""C01: the channel coding pipeline is lossless."""
import numpy as np
from pyvc.api import contract, bounded
from hermespy.fec import (Encoder, EncoderManager, RepetitionEncoder, BlockInterleaver, CyclicRedundancyCheck,
                          Scrambler3GPP, Scrambler80211a)


class AnyEncoder(Encoder):
    """Arbitrary coding step, known only by its contract: decode(encode(block)) = block at its declared sizes."""

    def __init__(self, name, K, L):
        Encoder.__init__(self)
        from pyvc.codec import Codec
        self.K, self.L, self.codec = K, L, Codec(name)

    def encode(self, bits):
        assert bits.size == self.K
        return self.codec.encode(bits, self.K, self.L)

    def decode(self, encoded_bits):
        assert encoded_bits.size == self.L
        return self.codec.decode(encoded_bits, self.K, self.L)

    @property
    def bit_block_size(self):
        return self.K

    @property
    def code_block_size(self):
        return self.L


def concrete_chain(vc, n):
    """Random compatible chain of real encoders."""
    r = vc.rng
    chain, L = [], 1
    for i in range(n):
        kind = r.integers(0, 5) if i else r.integers(0, 4)
        first = not chain
        m = int(r.integers(1, 4))
        K = m * L if not first else int(r.integers(1, 6))
        if kind == 0:
            e = RepetitionEncoder(K, int(r.choice([1, 3, 5])))
        elif kind == 1:
            divs = [d for d in range(1, K + 1) if K % d == 0]
            e = BlockInterleaver(K, int(r.choice(divs)))
        elif kind == 2:
            e = CyclicRedundancyCheck(K, int(r.integers(0, 4)))
            e.seed = 3
        elif kind == 3 and first:
            e = Scrambler80211a() if r.integers(0, 2) else Scrambler3GPP()
        else:
            e = RepetitionEncoder(K, 3)
        chain.append(e)
        L = e.code_block_size
    return chain


def restart(steps):
    """Stateful coding steps (scramblers) advance with every block: the plain run must not disturb the one under test."""
    for s in steps:
        if isinstance(s, (Scrambler80211a, Scrambler3GPP)):
            s.__init__()


def build(vc, n, **kw):
    """A pipeline of n compatible coding steps: every block size is a multiple of the previous code block size."""
    enc = EncoderManager(seed=1, **kw)
    if vc.symbolic:
        steps, L = [], None
        for i in range(n):
            if i == 0:
                K = vc.int("K0", 1)
            else:
                K = vc.int(f"m{i}", 1) * L
                vc.assume(K >= steps[-1].K)
            Li = vc.int(f"L{i}", 1)
            steps.append(AnyEncoder(f"e{i}", K, Li))
            L = Li
    else:
        steps = concrete_chain(vc, n)
        vc.drawn["chain"] = [(type(s).__name__, s.bit_block_size, s.code_block_size) for s in steps]
        for a, b in zip(steps, steps[1:]):
            vc.assume(b.bit_block_size >= a.bit_block_size)
    for s in steps:
        enc.add_encoder(s)
    return enc, steps


@contract("C01", "round trip", limit=100, n=600, bound="chains of up to two arbitrary coding steps are proved, up to four run")
def round_trip(vc):
    """decode(encode(bits), n) = bits for every compatible chain and every stream length."""
    n = vc.choice("steps", [0, 1]) if vc.symbolic else vc.int("steps", 0, 4, cap=4)
    enc, steps = build(vc, n)
    N = vc.int("N", 1, cap=30)
    data = vc.bits("data", N)
    code = enc.encode(data)
    vc.prove("code consists of whole blocks", code.size % enc.code_block_size == 0)
    i = vc.index("i", N)
    bits = enc.decode(code, N)
    vc.prove("the requested number of bits is returned", bits.size == N)
    vc.eq("decode(encode(data)) = data", bits[i] + 0, data[i])


@contract("C01", "padding within a chain", limit=100, n=300)
def two_steps(vc):
    """A stream filling the blocks of the first but not of the second coding step survives the padding in between."""
    enc, steps = build(vc, 2)
    N = vc.int("n", 1, cap=8) * steps[0].bit_block_size
    data = vc.bits("data", N)
    code = enc.encode(data)
    i = vc.index("i", N)
    vc.eq("decode(encode(data)) = data", enc.decode(code, N)[i] + 0, data[i])


@contract("C01", "full blocks", limit=100, n=300)
def full_blocks(vc):
    """Whole pipeline blocks decode without naming their number; announced sizes match the produced ones."""
    n = vc.choice("steps", [0, 1, 2]) if vc.symbolic else vc.int("steps", 0, 4, cap=4)
    enc, steps = build(vc, n)
    B = vc.int("B", 1, cap=3)
    K, L = enc.bit_block_size, enc.code_block_size
    data = vc.bits("data", B * K)
    code = enc.encode(data)
    vc.prove("B data blocks give B code blocks", code.size == B * L)
    vc.prove("required number of data bits", enc.required_num_data_bits(B * L) == B * K)
    bits = enc.decode(code)
    vc.prove("B code blocks give B data blocks", bits.size == B * K)
    i = vc.index("i", B * K)
    vc.eq("decode(encode(data)) = data", bits[i] + 0, data[i])


@contract("C01", "disabled steps", limit=60, n=300)
def disabled(vc):
    """Disabled coding steps do not take part."""
    n = 2 if vc.symbolic else vc.int("steps", 1, 4, cap=4)
    enc, steps = build(vc, n)
    off = vc.int("off", 0, n - 1)
    for j, s in enumerate(steps):
        if j == off:
            s.enabled = False
    active = [s for j, s in enumerate(steps) if j != off]
    if vc.symbolic:
        vc.assume(len(active) == n - 1)
    else:
        for a, b in zip(active, active[1:]):
            vc.assume(b.bit_block_size % a.code_block_size == 0)
    N = vc.int("N", 1, cap=30)
    data = vc.bits("data", N)
    code = enc.encode(data)
    i = vc.index("i", N)
    vc.eq("decode(encode(data)) = data", enc.decode(code, N)[i] + 0, data[i])


@contract("C01", "requested code length", limit=60, n=300)
def requested(vc):
    """Encoding to a requested number of code bits yields exactly that many and stays decodable."""
    n = vc.choice("steps", [0, 1]) if vc.symbolic else vc.int("steps", 0, 3, cap=3)
    enc, steps = build(vc, n)
    N = vc.int("N", 1, cap=20)
    P = vc.int("P", 0, cap=4)
    data = vc.bits("data", N)
    plain = enc.encode(data).size
    restart(steps)
    vc.assume(P < enc.code_block_size)
    code = enc.encode(data, plain + P)
    vc.prove("exactly the requested number of code bits", code.size == plain + P)
    i = vc.index("i", N)
    vc.eq("decode(encode(data, n)) = data", enc.decode(code, N)[i] + 0, data[i])


@contract("C01", "too short code length is rejected", limit=60)
def too_short(vc):
    n = vc.choice("steps", [0, 1]) if vc.symbolic else vc.int("steps", 0, 3, cap=3)
    enc, steps = build(vc, n)
    N = vc.int("N", 1, cap=20)
    data = vc.bits("data", N)
    plain = enc.encode(data).size
    M = vc.int("M", 1, cap=20)
    vc.assume(M < plain)
    vc.raises("truncation is rejected", RuntimeError, lambda: enc.encode(data, M))


@contract("C01", "padding policy", limit=60)
def padding(vc):
    n = 1 if vc.symbolic else vc.int("steps", 1, 3, cap=3)
    enc, steps = build(vc, n, allow_padding=False)
    N = vc.int("N", 1, cap=20)
    vc.assume(N % enc.bit_block_size != 0)
    data = vc.bits("data", N)
    vc.raises("padding is refused when not allowed", RuntimeError, lambda: enc.encode(data))


@contract("C01", "input is left unmodified", limit=60)
def frame(vc):
    n = vc.choice("steps", [0, 1]) if vc.symbolic else vc.int("steps", 0, 3, cap=3)
    enc, steps = build(vc, n)
    N = vc.int("N", 1, cap=20)
    data = vc.bits("data", N)
    before = data.copy()
    code = enc.encode(data)
    copy = code.copy()
    vc.same("encode leaves its argument unmodified", data, before)
    dec = enc.decode(code, N)
    dec[0] = 1 - dec[0]
    vc.same("decode leaves its argument unmodified", code, copy)
    code[0] = 1 - code[0]
    vc.same("the code does not alias the data", data, before)
