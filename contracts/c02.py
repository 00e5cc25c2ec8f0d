"""C02: every channel coding step inverts itself."""
import numpy as np
from pyvc.api import contract, bounded
from hermespy.fec import RepetitionEncoder, BlockInterleaver, CyclicRedundancyCheck, Scrambler3GPP, Scrambler80211a
from hermespy.fec.scrambler import PseudoRandomGenerator


@contract("C02", "repetition")
def repetition(vc):
    K = vc.int("K", 1)
    m = vc.int("m", 0, cap=3)
    R = 2 * m + 1
    enc = RepetitionEncoder(K, R)
    data = vc.bits("data", K)
    code = enc.encode(data)
    vc.prove("code has the declared size", code.size == enc.code_block_size)
    vc.prove("data block size is the configured one", enc.bit_block_size == K)
    vc.prove("one-dimensional code", code.ndim == 1)
    k = vc.index("k", K)
    j = vc.index("j", R)
    vc.eq("copy j of bit k", code[j * K + k], data[k])
    vc.same("decode(encode(data)) = data", enc.decode(code), data)


@contract("C02", "repetition corrects flips")
def repetition_flips(vc):
    K = vc.int("K", 1)
    m = vc.int("m", 0, cap=3)
    R = 2 * m + 1
    enc = RepetitionEncoder(K, R)
    data = vc.bits("data", K)
    flip = vc.bits("flip", K * R)
    k = vc.index("k", K)
    vc.assume(vc.sum(R, lambda j: flip[j * K + k]) <= m)
    vc.assume(data[k] == vc.choice("bit", [0, 1]))
    code = enc.encode(data)
    received = (code + flip) % 2
    vc.eq("majority of the copies wins", enc.decode(received)[k], data[k])


@contract("C02", "block interleaver")
def interleaver(vc):
    M = vc.int("M", 1)
    N = vc.int("N", 1)
    enc = BlockInterleaver(N * M, M)
    data = vc.bits("data", N * M)
    code = enc.encode(data)
    vc.prove("code has the declared size", vc.all(code.ndim == 1, code.size == enc.code_block_size,
                                                  enc.bit_block_size == N * M))
    m = vc.index("m", M)
    n = vc.index("n", N)
    vc.eq("bit n of section m moves to position n*M + m", code[n * M + m], data[m * N + n])
    vc.same("decode(encode(data)) = data", enc.decode(code), data)


@contract("C02", "interleaver rejects indivisible blocks")
def interleaver_reject(vc):
    B = vc.int("B", 1)
    M = vc.int("M", 1)
    vc.assume(B % M != 0)
    vc.raises("indivisible block size is rejected", ValueError, lambda: BlockInterleaver(B, M))


@contract("C02", "checksum mock")
def crc(vc):
    K = vc.int("K", 1)
    Q = vc.int("Q", 0)
    enc = CyclicRedundancyCheck(K, Q)
    data = vc.bits("data", K)
    code = enc.encode(data)
    vc.prove("code has the declared size", vc.all(code.ndim == 1, code.size == enc.code_block_size,
                                                  enc.bit_block_size == K))
    i = vc.index("i", K + Q)
    vc.prove("code consists of bits", vc.any(code[i] == 0, code[i] == 1))
    vc.same("decode(encode(data)) = data", enc.decode(code), data)


@contract("C02", "scrambler 802.11a")
def scrambler80211a(vc):
    L = vc.int("L", 0, cap=40)
    seed = vc.bits("seed", 7)
    tx = Scrambler80211a(seed)
    rx = Scrambler80211a(seed)
    data = vc.bits("data", L)
    code = tx.encode(data)
    vc.prove("code length", code.size == L)
    i = vc.index("i", L)
    vc.prove("code consists of bits", vc.any(code[i] == 0, code[i] == 1))
    vc.same("descrambling returns the data", rx.decode(code), data)
    # a second block continues with the register state left by the first one
    L2 = vc.int("L2", 0, cap=40)
    data2 = vc.bits("data2", L2)
    vc.same("descrambling returns the following block", rx.decode(tx.encode(data2)), data2)


@contract("C02", "scrambler 802.11a sequence")
def scrambler80211a_state(vc):
    """The scrambling sequence does not depend on the data."""
    L = vc.int("L", 1, cap=40)
    seed = vc.bits("seed", 7)
    a, b = vc.bits("a", L), vc.bits("b", L)
    ca = Scrambler80211a(seed).encode(a)
    cb = Scrambler80211a(seed).encode(b)
    i = vc.index("i", L)
    vc.prove("the same key bit is added to every data stream", (ca[i] + a[i]) % 2 == (cb[i] + b[i]) % 2)


@contract("C02", "scrambler seed setter", summarise_from=5)
def scrambler_seed(vc):
    L = vc.int("L", 0, cap=40)
    seed = vc.bits("seed", 7)
    tx = Scrambler80211a()
    rx = Scrambler80211a(seed)
    tx.seed = seed
    data = vc.bits("data", L)
    vc.same("a scrambler with a re-configured seed is inverted by one constructed with it",
            rx.decode(tx.encode(data)), data)


@contract("C02", "scrambler 3GPP", limit=60, summarise_from=100)
def scrambler3gpp(vc):
    M = vc.int("seed_length", 4, 31, cap=27) if not vc.symbolic else vc.choice("seed_length", [7])
    L = vc.int("L", 0, cap=40)
    seed = vc.bits("seed", M)
    enc = Scrambler3GPP(seed)
    data = vc.bits("data", L)
    code = enc.encode(data)
    vc.prove("code length", code.size == L)
    i = vc.index("i", L)
    vc.prove("code consists of bits", vc.any(code[i] == 0, code[i] == 1))
    vc.same("descrambling returns the data", enc.decode(code), data)
    L2 = vc.int("L2", 0, cap=40)
    data2 = vc.bits("data2", L2)
    vc.same("descrambling returns the following block", enc.decode(enc.encode(data2)), data2)


@contract("C02", "pseudo random generator reset", limit=60, summarise_from=30, n=40)
def prng_reset(vc):
    L = vc.int("L", 0, cap=40)
    n = vc.int("n", 0, cap=40)
    seed = vc.bits("seed", 31) if not vc.symbolic else vc.bits("seed", 7)
    gen = PseudoRandomGenerator(seed, vc.int("offset", 31, cap=1600) if not vc.symbolic else 40)
    first = gen.generate_sequence(L)
    gen.generate_sequence(n)
    gen.reset()
    vc.same("reset restarts the sequence", gen.generate_sequence(L), first)
