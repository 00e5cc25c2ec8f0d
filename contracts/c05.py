"""C05: symbol precodings are inverted by their decoders over flat channels."""
from fractions import Fraction
import numpy as np
from sparse import COO, GCXS
from pyvc.api import contract, bounded
from hermespy.modem.precoding import (DFT, Alamouti, Ganesan, MaximumRatioCombining, ReceiveSymbolCoding, ReceiveSymbolDecoder,
                                      SingleCarrier, TransmitSymbolCoding, TransmitSymbolEncoder)
from hermespy.modem.precoding.dft import DFTNorm
from hermespy.modem.symbols import StatedSymbols


def ones(*shape):
    return np.ones(shape, dtype=complex)


def coding(direction, *coders):
    c = direction()
    for i, x in enumerate(coders):
        c[i] = x
    return c


def through(h, x):
    """Receive the streams x over the channel h."""
    return np.sum(h * x[None, :, :, :], axis=1)


def held(c, words, length):
    """Channel coefficients, constant over code words of the given length."""
    return np.repeat(c, length, axis=2)


def space_time(vc, coder, words, symbols, inputs, outputs, streams):
    """Encode, propagate and decode the given number of code words."""
    received = vc.choice("received streams", [1, 2])
    x = vc.array("symbols", (1, inputs * words, symbols), "c")
    c = vc.array("channel", (received, streams, words, symbols), "c")
    piped = vc.choice("use", ["directly", "as pipelines"]) == "as pipelines"
    source = StatedSymbols(x, ones(1, 1, inputs * words, symbols))
    before = coding(TransmitSymbolCoding, coder)
    after = coding(ReceiveSymbolCoding, coder)
    vc.prove("one stream is encoded", before.num_transmit_input_streams(streams) == 1)
    vc.prove("each received stream is decoded", after.num_receive_output_streams(received) == received)
    vc.prove("announced rates", before.encode_rate == Fraction(inputs, outputs) and after.decode_rate == Fraction(inputs, outputs))
    e = before.encode_symbols(source, streams) if piped else coder.encode_symbols(source, streams)
    vc.prove("as many streams as transmitted", e.num_streams == streams)
    vc.prove("as many blocks as announced", vc.all(e.num_blocks == outputs * words, e.num_symbols == symbols))
    if words == 1:
        vc.prove("announced number of encoded blocks", before.num_encoded_blocks(inputs) == outputs)
        vc.prove("announced number of decoded blocks", after.num_decoded_blocks(outputs) == inputs)
    h = held(c, words, outputs)
    r = StatedSymbols(through(h, e.raw), h)
    d = after.decode_symbols(r) if piped else coder.decode_symbols(r, received)
    vc.prove("as many streams as received", d.num_streams == received)
    vc.prove("as many blocks as encoded", vc.all(d.num_blocks == inputs * words, d.num_symbols == symbols))
    vc.prove("a single transmitted stream remains", d.num_transmit_streams == 1)
    i, k = vc.choice("stream", range(received)), vc.index("symbol", symbols)
    w = vc.index("code word", words) if inputs == 2 else vc.choice("code word", range(words))
    norm = sum(abs(c[i, t, w, k]) ** 2 for t in range(streams))
    vc.assume(norm > 1e-6)
    for j in range(inputs):
        b = inputs * w + j
        vc.eq("symbols are recovered", d.raw[i, b, k], x[0, b, k], tol=1e-6)
        vc.eq("the channel is equalised", d.states[i, 0, b, k], 1.0 + 0j)


@contract("C05", "Alamouti coding", n=60, limit=90)
def alamouti(vc):
    space_time(vc, Alamouti(), vc.int("code words", 1, cap=4), vc.int("symbols per block", 1, cap=4), 2, 2, 2)


@contract("C05", "Ganesan coding", n=60, limit=120,
          note="for up to two code words")
def ganesan(vc):
    space_time(vc, Ganesan(), vc.choice("code words", [1, 2]), vc.int("symbols per block", 1, cap=4), 3, 4, 4)


@contract("C05", "transmitted power of space-time codes", n=40, limit=60)
def powers(vc):
    symbols = vc.int("symbols per block", 1, cap=4)
    coder, inputs, outputs, streams, repeated = vc.choice("code", [(Alamouti(), 2, 2, 2, 2), (Ganesan(), 3, 4, 4, 4)])
    x = vc.array("symbols", (1, inputs, symbols), "c")
    e = coder.encode_symbols(StatedSymbols(x, ones(1, 1, inputs, symbols)), streams)
    k = vc.index("symbol", symbols)
    for t in range(streams):
        vc.eq("each antenna transmits each symbol once", sum(abs(e.raw[t, b, k]) ** 2 for b in range(outputs)),
              sum(abs(x[0, b, k]) ** 2 for b in range(inputs)), tol=1e-9)


@contract("C05", "maximum ratio combining", n=60, limit=60)
def combining(vc):
    received = vc.choice("received streams", [1, 2, 3])
    blocks, symbols = vc.int("blocks", 1, cap=4), vc.int("symbols per block", 1, cap=4)
    x = vc.array("symbols", (1, blocks, symbols), "c")
    h = vc.array("channel", (received, 1, blocks, symbols), "c")
    c = coding(ReceiveSymbolCoding, MaximumRatioCombining())
    s = StatedSymbols(through(h, x), h)
    d = c.decode_symbols(s) if vc.choice("use", ["directly", "pipeline"]) == "pipeline" else c[0].decode_symbols(s, 1)
    vc.prove("one stream remains", d.num_streams == 1 and c.num_receive_output_streams(received) == 1)
    vc.prove("as many blocks as received", vc.all(d.num_blocks == blocks, d.num_symbols == symbols))
    vc.prove("announced rate", c.decode_rate == 1)
    b, k = vc.index("block", blocks), vc.index("symbol", symbols)
    norm = sum(abs(h[i, 0, b, k]) ** 2 for i in range(received))
    vc.assume(norm > 1e-6)
    vc.eq("the symbol is recovered", d.raw[0, b, k], x[0, b, k], tol=1e-6)
    vc.eq("the state is the combined channel power", d.states[0, 0, b, k], norm + 0j, tol=1e-9)


@contract("C05", "the strongest received stream is selected", n=60, limit=60)
def selection(vc):
    received, transmitted = vc.choice("received streams", [1, 2, 3]), vc.choice("transmitted streams", [1, 2, 3])
    blocks, symbols = vc.int("blocks", 1, cap=4), vc.int("symbols per block", 1, cap=4)
    x = vc.array("symbols", (received, blocks, symbols), "c")
    h = vc.array("channel", (received, transmitted, blocks, symbols), "c")
    c = coding(ReceiveSymbolCoding, SingleCarrier())
    d = c.decode_symbols(StatedSymbols(x, h))
    vc.prove("one stream remains", d.num_streams == 1 and c.num_receive_output_streams(received) == 1)
    vc.prove("as many blocks as received", vc.all(d.num_blocks == blocks, d.num_symbols == symbols))
    vc.prove("as many transmitted streams", d.num_transmit_streams == transmitted)
    b, k = vc.index("block", blocks), vc.index("symbol", symbols)
    power = [abs(sum((h[i, t, b, k] for t in range(transmitted)), 0j)) ** 2 for i in range(received)]
    i = vc.choice("strongest", range(received))
    for j in range(received):
        vc.assume(power[j] < power[i] or j == i)
    vc.eq("symbols of the strongest stream", d.raw[0, b, k], x[i, b, k])
    for t in range(transmitted):
        vc.eq("states of the strongest stream", d.states[0, t, b, k], h[i, t, b, k])


@contract("C05", "discrete Fourier precoding", n=60, limit=60)
def dft(vc):
    norm = vc.choice("normalisation", list(DFTNorm))
    streams = vc.choice("streams", [1, 2])
    blocks, symbols = vc.int("blocks", 1, cap=5), vc.int("symbols per block", 1, cap=4)
    x = vc.array("symbols", (streams, blocks, symbols), "c")
    h = vc.array("channel", (streams, 1, blocks, symbols), "c")
    before, after = coding(TransmitSymbolCoding, DFT(norm)), coding(ReceiveSymbolCoding, DFT(norm))
    e = before.encode_symbols(StatedSymbols(x, h), streams)
    d = after.decode_symbols(StatedSymbols(e.raw, h))
    vc.prove("as many streams", e.num_streams == streams and d.num_streams == streams
             and before.num_transmit_input_streams(streams) == streams and after.num_receive_output_streams(streams) == streams)
    vc.prove("as many blocks", vc.all(e.num_blocks == blocks, d.num_blocks == blocks, d.num_symbols == symbols))
    vc.prove("announced rates", before.encode_rate == 1 and after.decode_rate == 1)
    i, b, k = vc.choice("stream", range(streams)), vc.index("block", blocks), vc.index("symbol", symbols)
    vc.eq("symbols are recovered", d.raw[i, b, k], x[i, b, k], tol=1e-9)
    vc.eq("states are kept", d.states[i, 0, b, k], h[i, 0, b, k])


@bounded("C05", "discrete Fourier precoding is the Fourier transform over the blocks", n=80,
         bound="80 random blocks of up to 8 x 4 symbols")
def transform(vc):
    norm = vc.choice("normalisation", list(DFTNorm))
    n, m = int(vc.rng.integers(1, 9)), int(vc.rng.integers(1, 5))
    x = vc.rng.normal(size=(2, n, m)) + 1j * vc.rng.normal(size=(2, n, m))
    scale = {"backward": 1.0, "ortho": n ** -0.5, "forward": 1 / n}[norm.value]
    f = np.exp(-2j * np.pi * np.outer(np.arange(n), np.arange(n)) / n) * scale
    e = DFT(norm).encode_symbols(StatedSymbols(x, ones(2, 1, n, m)), 2)
    vc.prove("transform", bool(np.allclose(e.raw, np.einsum("ab,sbk->sak", f, x))))


class Coder(TransmitSymbolEncoder, ReceiveSymbolDecoder):
    """A coder repeating blocks and adding streams, logging its calls."""

    def __init__(self, factor, repeat, streams, log):
        TransmitSymbolEncoder.__init__(self)
        ReceiveSymbolDecoder.__init__(self)
        self.factor, self.repeat, self.streams, self.log = factor, repeat, streams, log

    def encode_symbols(self, symbols, num_output_streams):
        self.log.append((self, symbols.num_streams, num_output_streams))
        x = np.repeat(symbols.raw, self.repeat, axis=1)[:1] * self.factor
        return StatedSymbols(np.repeat(x, num_output_streams, axis=0), ones(num_output_streams, 1, x.shape[1], x.shape[2]))

    def decode_symbols(self, symbols, num_output_streams):
        self.log.append((self, symbols.num_streams, num_output_streams))
        x = symbols.raw[:num_output_streams, ::self.repeat] / self.factor
        return StatedSymbols(x, ones(num_output_streams, 1, x.shape[1], x.shape[2]))

    def num_transmit_input_streams(self, num_output_streams):
        return num_output_streams - self.streams

    def num_receive_output_streams(self, num_input_streams):
        return num_input_streams - self.streams

    num_transmit_input_symbols = num_receive_output_symbols = property(lambda self: 1)
    num_transmit_output_symbols = num_receive_input_symbols = property(lambda self: self.repeat)

    def serialize(self, process):
        pass

    @classmethod
    def Deserialize(cls, process):
        raise NotImplementedError


@contract("C05", "pipelines apply their coders in order", n=60, limit=60)
def pipelines(vc):
    number = vc.choice("coders", [0, 1, 2, 3])
    blocks = vc.choice("blocks", [1, 2, 3])
    log, base = [], 2
    coders = [Coder(2.0 + i, 1 + (i + 1) % 3, 1 + i, log) for i in range(number)]
    streams = base + sum(c.streams for c in coders)
    repeat = int(np.prod([c.repeat for c in coders]))
    before, after = coding(TransmitSymbolCoding, *coders), coding(ReceiveSymbolCoding, *coders[::-1])
    vc.prove("announced streams", before.num_transmit_input_streams(streams) == base
             and after.num_receive_output_streams(streams) == base)
    vc.prove("announced rates", before.encode_rate == Fraction(1, repeat) and after.decode_rate == Fraction(1, repeat))
    vc.prove("announced blocks", before.num_encoded_blocks(blocks) == blocks * repeat
             and after.num_decoded_blocks(blocks * repeat) == blocks)
    v = vc.array("symbol", (1, blocks, 1), "c")
    x = np.repeat(v, base, axis=0)
    source = StatedSymbols(x, ones(base, 1, blocks, 1))
    e = before.encode_symbols(source, streams)
    vc.prove("encoders run in order", [c for c, *_ in log] == coders)
    flow = [base]
    for c in coders:
        flow.append(flow[-1] + c.streams)
    vc.prove("encoders see their streams", [(a, b) for _, a, b in log] == list(zip(flow[:-1], flow[1:])))
    vc.prove("encoded size", e.num_streams == streams and e.num_blocks == blocks * repeat)
    log.clear()
    d = after.decode_symbols(e)
    vc.prove("decoders run in order", [c for c, *_ in log] == coders[::-1])
    vc.prove("decoders see their streams", [(a, b) for _, a, b in log] == list(zip(flow[1:], flow[:-1]))[::-1])
    vc.prove("decoded size", d.num_streams == base and d.num_blocks == blocks)
    i, b = vc.choice("stream", range(base)), vc.choice("block", range(blocks))
    vc.eq("symbols are recovered", d.raw[i, b, 0], v[0, b, 0], tol=1e-9)
    vc.eq("the source is untouched", source.raw[i, b, 0], v[0, b, 0])


@contract("C05", "invalid blocks are rejected", n=60, limit=60)
def rejected(vc):
    m = vc.int("words", 0, cap=4)
    wrong = vc.choice("block", ["odd blocks", "two streams", "three antennas", "odd received blocks", "blocks", "streams",
                                "antennas", "received blocks", "transmitted streams", "two transmitted streams",
                                "no streams", "unsupported streams"])
    a, g = Alamouti(), Ganesan()

    def s(streams, blocks, transmitted=1):
        return StatedSymbols(ones(streams, blocks, 2), ones(streams, transmitted, blocks, 2))

    calls = {
        "odd blocks": lambda: a.encode_symbols(s(1, 2 * m + 1), 2),
        "two streams": lambda: a.encode_symbols(s(2, 2 * m), 2),
        "three antennas": lambda: a.encode_symbols(s(1, 2 * m), 3),
        "odd received blocks": lambda: a.decode_symbols(s(1, 2 * m + 1, 2), 1),
        "blocks": lambda: g.encode_symbols(s(1, 3 * m + 1), 4),
        "streams": lambda: g.encode_symbols(s(2, 3 * m), 4),
        "antennas": lambda: g.encode_symbols(s(1, 3 * m), 2),
        "received blocks": lambda: g.decode_symbols(s(1, 4 * m + 3, 4), 1),
        "transmitted streams": lambda: g.decode_symbols(s(1, 4 * m, 2), 1),
        "two transmitted streams": lambda: MaximumRatioCombining().decode_symbols(s(2, m, 2), 1),
        "no streams": lambda: coding(TransmitSymbolCoding, a).encode_symbols(s(1, 2 * m), 0),
        "unsupported streams": lambda: coding(TransmitSymbolCoding, a).encode_symbols(s(1, 2 * m), 3),
    }
    vc.raises("rejected", (ValueError, RuntimeError), calls[wrong])


@bounded("C05", "sparse channel states", n=40, budget=60, bound="40 random code words with sparse channel states")
def sparse(vc):
    r, w, s = int(vc.rng.integers(1, 4)), int(vc.rng.integers(1, 4)), int(vc.rng.integers(1, 4))
    kind = vc.choice("kind", [COO.from_numpy, GCXS.from_numpy])
    coder, i, o, t = vc.choice("code", [(Alamouti(), 2, 2, 2), (Ganesan(), 3, 4, 4), (None, 1, 1, 1)])
    x = vc.rng.normal(size=(1, i * w, s)) + 1j * vc.rng.normal(size=(1, i * w, s))
    c = vc.rng.normal(size=(r, t, w, s)) + 1j * vc.rng.normal(size=(r, t, w, s))
    h = np.repeat(c, o, axis=2)
    e = x if coder is None else coder.encode_symbols(StatedSymbols(x, ones(1, 1, i * w, s)), t).raw
    y = StatedSymbols(np.sum(h * e[None], axis=1), kind(h))
    d = coding(ReceiveSymbolCoding, coder or MaximumRatioCombining()).decode_symbols(y)
    for stream in d.raw:
        vc.prove("symbols are recovered", bool(np.allclose(stream, x[0])))
