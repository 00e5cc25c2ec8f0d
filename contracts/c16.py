"""C16: storing a component and loading it again preserves its configuration.

The components are verified against the contract of the serialisation process: a value stored under a name is what a
read of this name yields, objects stored twice are loaded once, and names never stored yield the given default.  In
symbolic runs this contract is implemented by Store and Load; run-time evaluations use the real HDF files, whose process
is checked against the same contract by bounded checks at the end of this module.
"""
from enum import Enum
import numpy as np
from pyvc.api import contract, bounded
from hermespy.core import (
    AntennaMode, CustomAntennaArray, Dipole, IdealAntenna, LinearAntenna, PatchAntenna, UniformArray, Signal,
    SignalReceiver, SignalTransmitter, SilentTransmitter, Transformation, SparseSignal, SignalBlock,
    DeviceTransmission, DeviceReception, Transmission, Reception,
    ChannelStateInformation, ValueType)
from hermespy.core.channel import ChannelStateFormat
from hermespy.core.drop import Drop
from hermespy.core.factory import (Serializable, SerializationProcess, DeserializationProcess,
                                   HDFSerializationProcess, HDFDeserializationProcess, UNDEF)
from hermespy.beamforming import (CaponBeamformer, ConventionalBeamformer, NullSteeringBeamformer, SphericalFocus,
                                  CoordinateFocus, BeamformingReceiver, BeamformingTransmitter)
from hermespy.channel import (
    CDL, CDLType, IndoorFactory, FactoryType, IndoorOffice, OfficeType, RuralMacrocells, UrbanMacrocells,
    UrbanMicrocells, DelayNormalization, LOSState, O2IState, SpatialDelayChannel, RandomDelayChannel, CorrelationType,
    StandardAntennaCorrelation, CustomAntennaCorrelation, Cost259, Cost259Type, Exponential, MultipathFadingChannel,
    TDL, TDLType, IdealChannel, MultiTargetRadarChannel, FixedCrossSection, VirtualRadarTarget, SingleTargetRadarChannel)
from hermespy.fec import (BlockInterleaver, CyclicRedundancyCheck, EncoderManager, RepetitionEncoder, Scrambler3GPP,
                          Scrambler80211a)
from hermespy.jcas import MatchedFilterJcas, OFDMRadar
from hermespy.modem import (
    RandomBitsSource, Symbols, StatedSymbols, CommunicationReception, CommunicationReceptionFrame,
    CommunicationTransmission, CommunicationTransmissionFrame, TransmittingModem, ReceivingModem, DuplexModem,
    SimplexLink, Synchronization, UniformPilotSymbolSequence, CustomPilotSymbolSequence, MappedPilotSymbolSequence,
    ChannelEstimation, ChannelEqualization, ChirpFSKWaveform,
    ChirpFSKCorrelationSynchronization, SingleCarrierLeastSquaresChannelEstimation,
    SingleCarrierZeroForcingChannelEqualization, SingleCarrierMinimumMeanSquareChannelEqualization,
    SingleCarrierCorrelationSynchronization, RaisedCosineWaveform, RootRaisedCosineWaveform, FMCWWaveform,
    RectangularWaveform, OrthogonalLeastSquaresChannelEstimation,
    OrthogonalZeroForcingChannelEqualization, OCDMWaveform, OFDMCorrelationSynchronization, OFDMWaveform, OTFSWaveform,
    PilotSection, SchmidlCoxPilotSection, SchmidlCoxSynchronization, ElementType, GridElement, GuardSection,
    GridResource, SymbolSection, PrefixType, Alamouti, DFT, DFTNorm,
    MaximumRatioCombining, BitErrorEvaluator, BlockErrorEvaluator, FrameErrorEvaluator, ThroughputEvaluator,
    ConstellationEVM, PskQamMapping)
from hermespy.modem.ieee_5gnr import NRSlotLink
from hermespy.modem.waveforms.ieee_5gnr import NRFrame, NRSlot, NRSubframe
from hermespy.radar import (Radar, FMCW, RadarCube, PointDetection, RadarPointCloud, ThresholdDetector, MaxDetector,
                            CFARDetector, RadarReception, DetectionProbEvaluator,
                            ReceiverOperatingCharacteristic, RootMeanSquareError)
from hermespy.hardware_loop import PhysicalDeviceDummy
from hermespy.simulation import (
    SingleCarrierIdealChannelEstimation, OFDMIdealChannelEstimation,
    LinearTrajectory, StaticTrajectory, SimulatedCustomArray, SimulatedDipole, SimulatedIdealAntenna,
    EBN0, ESN0, SimulatedLinearAntenna, SimulatedPatchAntenna, SimulatedUniformArray, SidelobeEvaluator, SI, SSINR, ADC, DAC, Gain, AutomaticGainControl, QuantizerType, GainControlType, PowerAmplifier,
    SalehPowerAmplifier, RappPowerAmplifier, ClippingPowerAmplifier, CustomPowerAmplifier, HPF, MixerType, IdealMixer,
    Mixer, RampGenerator, Shift, Source, Split, Sum, X4, N0, ThermalNoise, SNR, AWGN, NoPhaseNoise,
    OscillatorPhaseNoise, RFChain, RFSignal, SimulationScenario, SimulatedDevice, RandomTrigger, StaticTrigger,
    SampleOffsetTrigger, TimeOffsetTrigger, NormalTrigger, TriggerRealization, SpecificIsolation, PerfectIsolation,
    SelectiveLeakage, ImpedanceCoupling, PerfectCoupling, SimulatedDeviceTransmission, SimulatedDeviceReception)
from hermespy.simulation.rf.block import RFBlockPortType
from hermespy.simulation.rf.blocks.amps import MemoryCTPolynomialPowerAmplifier, MemoryPolynomialPowerAmplifier
from hermespy.simulation.rf.chain import RFBlockPortReference
from hermespy.simulation.rf.noise.model import AWGNRealization
from hermespy.simulation.rf.presets.ettus.x410 import X410
from hermespy.simulation.rf.presets.ti.xwr1843 import TIXWR1843

PASSIVE = {"random_mother", "mother_node", "device", "scenario", "simulation"}


# the contract of the serialisation process ---------------------------------------------------------------------------
def registry(cls=Serializable):
    found = {}
    for c in cls.__subclasses__():
        if c.__module__.startswith("hermespy"):
            found[c.serialization_tag()] = c
        found.update(registry(c))
    return found


class Entry:
    """A stored object: its named values and its type."""

    def __init__(self):
        self.values, self.scalars, self.tag, self.loaded = {}, {}, None, None


class Store(SerializationProcess):
    def __init__(self, tags, entry, seen):
        SerializationProcess.__init__(self, tags)
        self.entry, self.seen = entry, seen

    def serialize_array(self, array, name, cache=True):
        if name not in self.entry.values:
            self.entry.values[name] = np.array(np.asarray(array))

    def _keep(self, value, name):
        self.entry.scalars[name] = value

    def serialize_floating(self, value, name):
        self._keep(float(value), name)

    def serialize_complex(self, value, name):
        self._keep(complex(value), name)

    def serialize_integer(self, value, name):
        self._keep(int(value), name)

    def serialize_string(self, value, name):
        self._keep(value, name)

    def _serialize_object(self, obj, name, type, root):
        if name in self.entry.values:
            return
        for known, entry in self.seen:
            if known is obj:
                self.entry.values[name] = entry
                return
        entry = Entry()
        self.seen.append((obj, entry))
        self.entry.values[name] = entry
        obj.serialize(Store(self._tag_registry, entry, self.seen))
        entry.tag = type

    def serialize_object_sequence(self, objects, name, append=False, root=False):
        if name not in self.entry.values:
            self.entry.values[name] = Entry()
        group = self.entry.values[name]
        process = Store(self._tag_registry, group, self.seen)
        for i, o in enumerate(objects, len(group.values) if append else 0):
            process.serialize_object(o, f"{i:04d}")

    def serialize_custom(self, name, serializer):
        if name not in self.entry.values:
            self.entry.values[name] = Entry()
        serializer(Store(self._tag_registry, self.entry.values[name], self.seen))


class Load(DeserializationProcess):
    def __init__(self, tags, entry):
        DeserializationProcess.__init__(self, tags)
        self.entry = entry

    def _read(self, name, default):
        if name in self.entry.scalars:
            return self.entry.scalars[name]
        if isinstance(default, str) and default == UNDEF:
            raise RuntimeError(name)
        return default

    def deserialize_array(self, name, dtype, default=UNDEF):
        if name in self.entry.values:
            return np.asarray(self.entry.values[name], dtype=dtype)
        if isinstance(default, str) and default == UNDEF:
            raise RuntimeError(name)
        return default

    def deserialize_floating(self, name, default=UNDEF):
        return self._read(name, default)

    deserialize_complex = deserialize_integer = deserialize_string = deserialize_floating

    def _deserialize_object(self, name, expected_type, default):
        if name not in self.entry.values:
            return default
        entry = self.entry.values[name]
        if entry.loaded is None:
            entry.loaded = self._tag_registry[entry.tag].Deserialize(Load(self._tag_registry, entry))
        return entry.loaded

    def deserialize_object_sequence(self, name, type, start=0, stop=None):
        if name not in self.entry.values:
            return []
        group = self.entry.values[name]
        process = Load(self._tag_registry, group)
        return [process.deserialize_object(f"{i:04d}", type)
                for i in range(start, len(group.values) if stop is None else min(stop, len(group.values)))]

    def sequence_length(self, name):
        return len(self.entry.values[name].values) if name in self.entry.values else 0

    def deserialize_custom(self, name, callback):
        return callback(Load(self._tag_registry, self.entry.values[name]))


def reloaded(vc, obj):
    """The object after being stored and loaded."""
    tags = registry()
    if vc.symbolic:
        entry = Entry()
        obj.serialize(Store(tags, entry, []))
        return type(obj).Deserialize(Load(tags, entry))
    from h5py import File
    file = File("c16.h5", "w", driver="core", backing_store=False)
    try:
        obj.serialize(HDFSerializationProcess.New(tags, file))
        return type(obj).Deserialize(HDFDeserializationProcess.New(tags, file))
    finally:
        file.close()


# comparison ----------------------------------------------------------------------------------------------------------
def configuration(cls):
    """The names of the configuration parameters of a class."""
    names = set()
    for n in dir(cls):
        p = getattr(cls, n, None)
        if not n.startswith("_") and isinstance(p, property) and p.fset is not None:
            names.add(n)
    for c in cls.__mro__:
        code = getattr(c.__dict__.get("__init__"), "__code__", None)
        if code is not None and c.__module__.startswith("hermespy"):
            names.update(n for n in code.co_varnames[1:code.co_argcount + code.co_kwonlyargcount]
                         if isinstance(getattr(cls, n, None), property))
    return sorted(names - PASSIVE)


def parameters(obj):
    """The names of all configuration parameters and public attributes of an object."""
    names = configuration(type(obj))
    return names + sorted(n for n in getattr(obj, "__dict__", {}) if not n.startswith("_") and n not in names and n not in PASSIVE
                          and not isinstance(obj, np.ndarray))


def read(obj, name):
    try:
        return getattr(obj, name)
    except (RuntimeError, ValueError, NotImplementedError, AttributeError) as e:
        return type(e)


def matching(vc, label, a, b, seen, extra=()):
    """Two values describe the same configuration."""
    if hasattr(type(a), "todense"):
        a, b = a.todense(), b.todense() if hasattr(type(b), "todense") else b
    if a is None or isinstance(a, (str, type, Enum)):
        vc.prove(label, type(b) is type(a) and b == a, lambda: f"{b!r} instead of {a!r}")
    elif isinstance(a, np.ndarray) and not isinstance(a, Serializable):
        vc.eq(label, b, a)
    elif isinstance(a, Transformation):
        vc.eq(label, np.asarray(b), np.asarray(a))
    elif isinstance(a, Serializable):
        if any(x is a and y is b for x, y in seen):
            return
        seen.append((a, b))
        vc.prove(f"{label}: type", type(a) is type(b), lambda: f"{type(b)} instead of {type(a)}")
        if isinstance(a, np.ndarray):
            vc.eq(f"{label}: samples", np.asarray(b), np.asarray(a))
        for n in parameters(a) + [e for e in extra if e is not None]:
            matching(vc, f"{label}.{n}", read(a, n), read(b, n), seen)
    elif isinstance(a, (list, tuple)):
        vc.prove(f"{label}: number", len(a) == len(b), lambda: f"{len(b)} instead of {len(a)}")
        for i in range(len(a)):
            matching(vc, f"{label}[{i}]", a[i], b[i], seen)
    elif isinstance(a, (set, frozenset)):
        vc.prove(f"{label}: number", len(a) == len(b))
        if len(a) == 1:
            matching(vc, label, next(iter(a)), next(iter(b)), seen)
    elif isinstance(a, dict):
        vc.prove(f"{label}: keys", list(a) == list(b))
        for k in a:
            matching(vc, f"{label}[{k}]", a[k], b[k], seen)
    elif callable(a) or isinstance(a, (np.random.Generator, np.random.SeedSequence)):
        return
    elif hasattr(type(a), "__array__") or not hasattr(type(a), "__dict__") or np.isscalar(a) or type(a).__module__ != type(b).__module__ or not type(a).__module__.startswith("hermespy"):
        vc.eq(label, b, a)
        if type(a) in (int, np.int64) and not vc.symbolic:
            vc.prove(f"{label}: whole", isinstance(b, (int, np.integer)), lambda: f"{b!r} instead of {a!r}")
    else:
        seen.append((a, b))
        for n in parameters(a):
            matching(vc, f"{label}.{n}", read(a, n), read(b, n), seen)


class Draw:
    """Arbitrary configuration values.

    Numeric parameters are arbitrary.  Discrete options are arbitrary, too, unless a number of variants is given: then,
    proofs consider this many combinations of all options, each option occurring at least once, since their product is
    too large.
    """

    def __init__(self, vc, variants=0):
        self.vc, self.n = vc, 0
        self.variant = vc.choice("variant", list(range(variants))) if variants and vc.symbolic else None

    def _name(self):
        self.n += 1
        return f"p{self.n}"

    def real(self, lo=None, hi=None):
        return self.vc.real(self._name(), lo, hi)

    def pos(self):
        return self.vc.real(self._name(), 0.0, lo_open=True)

    def int(self, lo=0, hi=None):
        return self.vc.int(self._name(), lo, hi)

    def few(self, lo, hi):
        return self.pick(range(lo, hi + 1))

    def bool(self):
        return self.pick([True, False])

    def pick(self, options):
        options, name, v = list(options), self._name(), self.variant
        if v is None:
            return self.vc.choice(name, options)
        return options[v % len(options)] if v < len(options) else options[(v * 7919 + self.n * 104729) // 13 % len(options)]

    def array(self, shape, kind="f", lo=None, hi=None):
        return self.vc.array(self._name(), shape, kind, lo, hi)

    def complex(self):
        return self.vc.complex(self._name())

    def seed(self):
        return self.pick([None, 0, 1, 42, 2 ** 31])

    def maybe(self, make):
        return make() if self.bool() else None

    def pose(self):
        return Transformation.From_Translation(self.array((3,)))


COMPONENTS = {}


def component(name, *extra, mode="proof", variants=0, **opts):
    """Registers the contract of a component given by a function creating it in an arbitrary configuration."""
    def deco(make):
        def check(vc, make=make, extra=extra, variants=variants):
            d = Draw(vc, variants)
            obj = make(d)
            matching(vc, "loaded", obj, reloaded(vc, obj), [], extra)
        COMPONENTS[name] = make
        if mode == "proof":
            contract("C16", f"{name} survive storing", n=opts.pop("n", 12), **opts)(check)
        else:
            bounded("C16", f"{name} survive storing", n=opts.pop("n", 12), bound="sampled configurations", **opts)(check)
        return make
    return deco


# coding --------------------------------------------------------------------------------------------------------------
@component("block interleavers")
def interleaver(d):
    n = d.few(1, 4)
    return BlockInterleaver(n * d.int(1), n)


@component("repetition codes")
def repetition(d):
    return RepetitionEncoder(d.int(1), 2 * d.int(0) + 1)


@component("cyclic redundancy checks")
def crc(d):
    return CyclicRedundancyCheck(d.int(1), d.int(0))


def encoders(d):
    coders = [interleaver(d)] + ([repetition(d)] if d.bool() else [])
    for c in coders:
        c.enabled = d.bool()
    return coders


@component("encoder managers")
def manager(d):
    m = EncoderManager(d.bool(), d.bool())
    for e in encoders(d):
        m.add_encoder(e)
    return m


for NAME, SCRAMBLER, SIZE in ("3GPP", Scrambler3GPP, 31), ("802.11a", Scrambler80211a, 7):
    @bounded("C16", f"{NAME} scramblers survive storing", n=12, bound="sampled seeds and bits")
    def scrambler(vc, SCRAMBLER=SCRAMBLER, SIZE=SIZE):
        d = Draw(vc)
        s = SCRAMBLER(d.pick([None, vc.rng.integers(0, 2, SIZE)]))
        r = reloaded(vc, s)
        bits = vc.rng.integers(0, 2, 40)
        vc.eq("same code", r.encode(bits), s.encode(bits))


# beamforming ---------------------------------------------------------------------------------------------------------
@component("Capon beamformers")
def capon(d):
    return CaponBeamformer(d.real(0.0))


@component("conventional beamformers")
def conventional(d):
    return ConventionalBeamformer()


@component("null steering beamformers")
def null_steering(d):
    return NullSteeringBeamformer()


@component("spherical focus points")
def spherical(d):
    return SphericalFocus(d.array((2,)))


@component("coordinate focus points", "reference", "coordinates")
def coordinates(d):
    p = d.array((3,))
    d.vc.assume(p[0] * p[0] + p[1] * p[1] + p[2] * p[2] > 0.01)
    return CoordinateFocus(p, d.pick(["global", "local"]))


def signal(d, streams=None):
    n = d.few(1, 2) if streams is None else streams
    return Signal.Create(d.array((n, d.few(1, 5)), "c"), d.pos(), d.real(0.0), d.real(0.0), d.real(0.0))


@component("beamforming transmitters", "signal", "beamformer")
def beam_transmitter(d):
    return BeamformingTransmitter(signal(d, 1), conventional(d))


@component("beamforming receivers", "num_samples", "beamformer")
def beam_receiver(d):
    return BeamformingReceiver(capon(d), d.int(1), d.maybe(lambda: [0, 2]), d.real(0.0))


# signals and antennas ------------------------------------------------------------------------------------------------
@component("dense signals")
def dense(d):
    return signal(d)


@component("sparse signals", "num_streams", "num_samples")
def sparse(d):
    a, b = d.few(1, 3), d.few(1, 3)
    gap = d.few(1, 3)
    return SparseSignal([SignalBlock(2, a, d.few(0, 2), d.array((2, a), "c")),
                         SignalBlock(2, b, 2 + a + gap, d.array((2, b), "c"))], d.pos(), d.real(0.0), d.real(0.0), d.real(0.0))


@contract("C16", "radio-frequency signals survive storing", n=12)
def rf_signal(vc):
    d = Draw(vc)
    n = d.few(1, 2)
    s = RFSignal.FromNDArray(d.array((n, d.few(1, 4)), "c"), d.pos(), d.array((n,), "f", 0.0), d.array((n,), "f", 0.0), d.real(0.0))
    if d.bool():
        s.noise_power, s.carrier_frequency = d.real(0.0), d.real(0.0)
    r = reloaded(vc, s)
    fields(vc, "signal", s, r, ("sampling_rate", "carrier_frequencies", "noise_powers", "delay", "carrier_frequency", "noise_power"))
    vc.eq("samples", np.asarray(r), np.asarray(s))


MODES = (AntennaMode.TX, AntennaMode.RX, AntennaMode.DUPLEX)
ANTENNAS = {"ideal antennas": lambda d: IdealAntenna(d.pick(MODES), d.pose()),
            "dipoles": lambda d: Dipole(d.pick(MODES), d.pose()),
            "patch antennas": lambda d: PatchAntenna(d.pick(MODES), d.pose()),
            "linear antennas": lambda d: LinearAntenna(d.pick(MODES), d.real(0.0, 1.0), d.pose()),
            "simulated ideal antennas": lambda d: SimulatedIdealAntenna(d.pick(MODES), d.pose(), d.complex()),
            "simulated dipoles": lambda d: SimulatedDipole(d.pick(MODES), d.pose(), d.complex()),
            "simulated patch antennas": lambda d: SimulatedPatchAntenna(d.pick(MODES), d.pose(), d.complex()),
            "simulated linear antennas": lambda d: SimulatedLinearAntenna(d.pick(MODES), d.real(0.0, 1.0), d.pose(), d.complex())}
for NAME, MAKE in ANTENNAS.items():
    component(NAME)(MAKE)


@component("uniform antenna arrays", "antennas")
def uniform(d):
    return UniformArray(LinearAntenna(d.pick(MODES), d.real(0.0, 1.0)), d.pos(), [d.few(1, 2), d.few(1, 2), 1], d.pose())


@component("simulated uniform antenna arrays", "antennas")
def simulated_uniform(d):
    return SimulatedUniformArray(SimulatedIdealAntenna(d.pick(MODES)), d.pos(), [d.few(1, 2), d.few(1, 2), 1], d.pose())


@component("custom antenna arrays", "antennas")
def custom_array(d):
    return CustomAntennaArray([ANTENNAS["linear antennas"](d), ANTENNAS["dipoles"](d)], d.pose())


@component("simulated custom antenna arrays", "antennas")
def simulated_array(d):
    return SimulatedCustomArray([ANTENNAS["simulated linear antennas"](d), ANTENNAS["simulated dipoles"](d)], d.pose())


@component("transformations")
def transformation(d):
    return d.pose()


@contract("C16", "channel states survive storing", n=12)
def channel_state(vc):
    d = Draw(vc)
    a = ChannelStateInformation(ChannelStateFormat.IMPULSE_RESPONSE, d.array((1, 2, d.few(1, 3), d.few(1, 2)), "c"))
    r = reloaded(vc, a)
    fields(vc, "state", a, r, ("state_format",))
    vc.eq("state", r.dense_state(), a.dense_state())


# operators -----------------------------------------------------------------------------------------------------------
@component("signal transmitters", "signal")
def signal_transmitter(d):
    return SignalTransmitter(signal(d), d.seed(), d.maybe(lambda: [0, 1]), d.maybe(lambda: d.real(0.0)))


@component("silent transmitters", "num_samples")
def silent(d):
    return SilentTransmitter(d.int(1), d.maybe(lambda: [0, 1]))


@component("signal receivers", "num_samples", "expected_power")
def signal_receiver(d):
    return SignalReceiver(d.int(1), d.maybe(lambda: [1, 3]), d.real(0.0))


# radio-frequency front ends ------------------------------------------------------------------------------------------
def noise(d):
    return {"noise_model": AWGN(d.seed()), "noise_level": d.pick([lambda: N0(d.real(0.0)), lambda: ThermalNoise(d.real(0.0))])()}


@component("digital to analog converters", "num_quantization_bits", "num_input_ports")
def dac(d):
    return DAC(d.pick([None, 1, 8]), d.few(1, 3), **noise(d), seed=d.seed())


@component("analog to digital converters", "num_quantization_bits", "num_output_ports", variants=48)
def adc(d):
    return ADC(d.pick([None, 1, 8]), d.pick([lambda: Gain(d.pos(), d.bool()), lambda: automatic(d)])(), d.pick(QuantizerType),
               d.few(1, 3), **noise(d), seed=d.seed())


@component("gain stages")
def gain_stage(d):
    return Gain(d.pos(), d.bool())


@component("automatic gain controls")
def automatic(d):
    return AutomaticGainControl(d.pick(GainControlType), d.real(1.0), d.bool())


AMPLIFIERS = {"power amplifiers": lambda d: PowerAmplifier(d.pos(), **noise(d), seed=d.seed()),
              "clipping power amplifiers": lambda d: ClippingPowerAmplifier(d.pos(), d.pos(), **noise(d), seed=d.seed()),
              "Rapp power amplifiers": lambda d: RappPowerAmplifier(d.real(1.0), d.pos(), **noise(d), seed=d.seed()),
              "Saleh power amplifiers": lambda d: SalehPowerAmplifier(d.real(0.0), d.real(0.0), d.real(), d.real(0.0), d.pos(),
                                                                      **noise(d), seed=d.seed()),
              "high pass filters": lambda d: HPF(d.pos(), d.int(1), **noise(d), seed=d.seed()),
              "mixers": lambda d: Mixer(d.pick(MixerType), **noise(d), seed=d.seed()),
              "ideal mixers": lambda d: IdealMixer(d.pick(MixerType), d.real(0.0), **noise(d), seed=d.seed()),
              "ramp generators": lambda d: RampGenerator(d.int(1), d.pos(), d.pos(), d.pos(), **noise(d), seed=d.seed()),
              "phase shifters": lambda d: Shift(d.real(0.0, 3.0), d.int(0), d.few(1, 3), **noise(d), seed=d.seed()),
              "sources": lambda d: Source(d.real(0.0), d.pick([NoPhaseNoise, lambda: phase_noise(d)])(), d.real(0.0), **noise(d), seed=d.seed()),
              "splitters": lambda d: Split(d.few(1, 3), d.seed()),
              "combiners": lambda d: Sum(d.few(1, 3), d.seed()),
              "X4 front ends": lambda d: X4(d.seed())}
for NAME, MAKE in AMPLIFIERS.items():
    component(NAME, "lo_frequency" if "ideal mix" in NAME else None, "num_output_ports", "num_input_ports")(MAKE)


@component("memory polynomial amplifiers", "coeff_matrix")
def memory_amplifier(d):
    return MemoryPolynomialPowerAmplifier(d.array((d.few(1, 2), d.few(1, 3)), "c"), gain=d.pos(), **noise(d), seed=d.seed())


@component("memory cross term amplifiers", "coeff_matrix")
def memory_ct_amplifier(d):
    return MemoryCTPolynomialPowerAmplifier(d.array((2, d.pick([3, 5])), "c"), gain=d.pos(), **noise(d), seed=d.seed())


@component("oscillator phase noises")
def phase_noise(d):
    return OscillatorPhaseNoise(d.pos(), d.pos(), d.pos(), d.seed())


@bounded("C16", "custom power amplifiers survive storing", n=12, bound="sampled characteristics")
def custom_amplifier(vc):
    d = Draw(vc)
    n = d.few(2, 6)
    a = CustomPowerAmplifier(np.sort(vc.rng.random(n)), vc.rng.random(n), vc.rng.random(n), d.pos(), **noise(d), seed=d.seed())
    r = reloaded(vc, a)
    matching(vc, "loaded", a, r, [])


@component("thermal noises")
def thermal(d):
    return ThermalNoise(d.real(0.0))


@component("noise powers")
def noise_power(d):
    return N0(d.real(0.0))


@component("additive noise models")
def awgn(d):
    return AWGN(d.seed())


@component("noise realizations", "power", "seed")
def noise_realization(d):
    return AWGNRealization(d.real(0.0), d.int(0))


# device models -------------------------------------------------------------------------------------------------------
TRIGGERS = {"static triggers": lambda d: StaticTrigger(), "random triggers": lambda d: RandomTrigger(),
            "sample offset triggers": lambda d: SampleOffsetTrigger(d.int(0)),
            "time offset triggers": lambda d: TimeOffsetTrigger(d.real(0.0)),
            "normal triggers": lambda d: NormalTrigger(d.real(0.0), d.real(0.0)),
            "trigger realizations": lambda d: TriggerRealization(d.int(0), d.pos())}
for NAME, MAKE in TRIGGERS.items():
    component(NAME, *(("num_offset_samples", "sampling_rate") if "reali" in NAME else ()))(MAKE)


@component("perfect isolations")
def perfect_isolation(d):
    return PerfectIsolation()


@component("specific isolations")
def specific_isolation(d):
    return SpecificIsolation(d.pick([lambda: None, lambda: d.array((2, 2), "f", 0.0), lambda: np.array([[d.real(0.0)]])])())


@component("selective leakages", "leakage_response")
def leakage(d):
    return SelectiveLeakage(d.array((2, d.few(1, 2), d.few(1, 3)), "c"))


@component("perfect couplings")
def perfect_coupling(d):
    return PerfectCoupling()


@component("impedance couplings")
def impedance(d):
    return ImpedanceCoupling(*[d.array((2, 2), "c") if d.bool() else None for _ in range(5)])


@component("static trajectories", "pose", "velocity")
def static_trajectory(d):
    return StaticTrajectory(d.pose(), d.array((3,)))


@bounded("C16", "linear trajectories survive storing", n=12, bound="sampled trajectories")
def linear_trajectory(vc):
    d = Draw(vc)
    t = LinearTrajectory(d.pose(), d.pose(), d.pos(), d.real(0.0))
    r = reloaded(vc, t)
    matching(vc, "loaded", t, r, [])
    for s in vc.rng.random(4) * 2 * t.max_timestamp:
        x, y = t.sample(s), r.sample(s)
        vc.eq("same pose", np.asarray(y.pose), np.asarray(x.pose))
        vc.eq("same velocity", y.velocity, x.velocity)


# channels ------------------------------------------------------------------------------------------------------------
SPAN = [lambda d: d.real(0.0), lambda d: (lambda lo: (lo, lo + d.pos()))(d.real(0.0))]


def span(d):
    return d.pick(SPAN)(d)


def correlation(d):
    return d.pick([lambda: None, lambda: StandardAntennaCorrelation(d.pick(CorrelationType)),
                   lambda: custom_correlation(d)])()


def fading(d):
    return {"correlation_distance": d.pick([np.inf, 2.0]), "num_sinusoids": d.int(1, 40), "los_angle": d.pick([None, 0.0, 1.0]),
            "doppler_frequency": d.real(0.0), "los_doppler_frequency": d.maybe(lambda: d.real(0.0)),
            "antenna_correlation": correlation(d), "gain": d.real(0.0), "seed": d.seed()}


def cluster(d):
    return {"delay_normalization": d.pick(DelayNormalization), "oxygen_absorption": d.bool(), "gain": d.real(0.0), "seed": d.seed()}


CHANNELS = {
    "ideal channels": lambda d: IdealChannel(d.real(0.0), d.seed()),
    "spatial delay channels": lambda d: SpatialDelayChannel(d.bool(), d.real(0.0), d.seed()),
    "random delay channels": lambda d: RandomDelayChannel(span(d), d.pick([np.inf, 3.0]), d.bool(), d.real(0.0), d.seed()),
    "multipath fading channels": lambda d: MultipathFadingChannel(np.array(d.pick([[0.0, 1e-6], [3e-7, 0.0]])), np.array(d.pick([[1.0, 0.5], [2.0, 0.0]])), np.array(d.pick([[0.0, 1.5], [np.inf, 0.0]])), **fading(d)),
    "COST259 channels": lambda d: Cost259(d.pick(Cost259Type), **fading(d)),
    "exponential channels": lambda d: Exponential(d.pick([1e-7, 2e-7]), d.pick([1e-8, 1e-6]), **fading(d)),
    "5G TDL channels": lambda d: TDL(d.pick([TDLType.A, TDLType.B, TDLType.C]), d.pick([0.0, 1e-6]), **fading(d)),
    "5G line of sight TDL channels": lambda d: TDL(d.pick([TDLType.D, TDLType.E]), d.pick([0.0, 1e-6]), **{**fading(d), "los_doppler_frequency": None}),
    "single target radar channels": lambda d: SingleTargetRadarChannel(
        span(d), d.real(0.0), span(d), span(d), d.bool(), d.pick([lambda: d.real(0.0), lambda: d.array((3,)), lambda: span(d)])(),
        d.pick([np.inf, 3.0]), d.bool(), d.real(0.0), d.seed()),
    "CDL channels": lambda d: CDL(d.pick(CDLType), d.real(0.0), d.real(0.0), d.pos(), gain=d.real(0.0), seed=d.seed()),
    "indoor factory channels": lambda d: IndoorFactory(d.pos(), d.pos(), d.pick(FactoryType), d.real(0.0, 10.0), expected_state=d.pick([None, *LOSState]), **cluster(d)),
    "indoor office channels": lambda d: IndoorOffice(d.pick(OfficeType), expected_state=d.pick([None, *LOSState]), **cluster(d)),
    "rural macrocell channels": lambda d: RuralMacrocells(expected_state=d.pick([None, *O2IState]), **cluster(d)),
    "urban macrocell channels": lambda d: UrbanMacrocells(expected_state=d.pick([None, *O2IState]), **cluster(d)),
    "urban microcell channels": lambda d: UrbanMicrocells(expected_state=d.pick([None, *O2IState]), **cluster(d))}
for NAME, MAKE in CHANNELS.items():
    if NAME == "exponential channels":
        component(NAME, mode="bounded")(MAKE)
    else:
        component(NAME, variants=16 if "TDL" in NAME or "COST" in NAME else 48, limit=150)(MAKE)


def radar_target(d):
    return VirtualRadarTarget(FixedCrossSection(d.real(0.0)), static_trajectory(d), d.bool())


@component("virtual radar targets", "trajectory")
def virtual_target(d):
    return radar_target(d)


@component("multi target radar channels", "targets")
def multi_target(d):
    c = MultiTargetRadarChannel(d.bool(), d.pick([np.inf, 3.0]), d.bool(), d.real(0.0), d.seed())
    c.add_target(radar_target(d))
    return c


def custom_correlation(d):
    c = d.pick([0.0, 0.25, 0.5j])
    return CustomAntennaCorrelation(np.array([[1.0, c], [np.conj(c), 2.0]]))


CORRELATIONS = {"standard antenna correlations": lambda d: StandardAntennaCorrelation(d.pick(CorrelationType)),
                "custom antenna correlations": lambda d: custom_correlation(d)}
for NAME, MAKE in CORRELATIONS.items():
    component(NAME)(MAKE)


MODERATE = {**CHANNELS, "random delay channels": lambda d: RandomDelayChannel(
                d.pick([lambda: d.real(0.0, 1e-6), lambda: (0.0, d.real(0.0, 1e-6))])(), d.pick([np.inf, 3.0]), d.bool(), d.real(0.0), d.seed()),
            "CDL channels": lambda d: CDL(d.pick(CDLType), d.real(0.0, 1e-6), d.real(0.0, 1e-6), d.pos(), gain=d.real(0.0), seed=d.seed())}
for NAME, MAKE in MODERATE.items():
    @bounded("C16", f"realizations of {NAME} survive storing", n=10, bound="sampled channels and signals")
    def channel_realization(vc, MAKE=MAKE):
        d = Draw(vc)
        channel = MAKE(d)
        channel.seed = 3
        a = SimulatedDevice(pose=Transformation.From_Translation(vc.rng.normal(size=3) * 20.0), carrier_frequency=1e9)
        b = SimulatedDevice(pose=Transformation.From_Translation(vc.rng.normal(size=3) * 20.0 + 50.0), carrier_frequency=1e9)
        realization = channel.realize()
        again = reloaded(vc, realization)
        x = Signal.Create(vc.rng.normal(size=(1, 8)) + 0j, 1e8, 1e9)
        try:
            expected = realization.sample(a, b).propagate(x)
        except (ValueError, RuntimeError) as e:
            vc.raises("same error", type(e), lambda: again.sample(a, b).propagate(x))
            return
        y = again.sample(a, b).propagate(x)
        vc.eq("same propagation", y.view(np.ndarray), expected.view(np.ndarray))


# modems --------------------------------------------------------------------------------------------------------------
def pilots(d):
    return d.pick([lambda: None, lambda: UniformPilotSymbolSequence(d.complex()), lambda: CustomPilotSymbolSequence(d.array((d.few(1, 3),), "c"))])()


SEQUENCES = {"uniform pilot sequences": lambda d: UniformPilotSymbolSequence(d.complex()),
             "custom pilot sequences": lambda d: CustomPilotSymbolSequence(d.array((d.few(1, 3),), "c"))}
for NAME, MAKE in SEQUENCES.items():
    component(NAME, "pilot_symbol" if "uni" in NAME else "pilot_symbols", "sequence")(MAKE)


def single_carrier(d):
    p = {"num_preamble_symbols": d.int(0), "num_data_symbols": d.int(0), "num_postamble_symbols": d.int(0), "pilot_rate": d.int(0),
         "guard_interval": d.real(0.0), "modulation_order": d.pick([2, 4, 16]), "repeat_pilot_symbol_sequence": d.bool()}
    s = pilots(d)
    if s is not None:
        p["pilot_symbol_sequence"] = s
    p["synchronization"] = d.pick([Synchronization, lambda: SingleCarrierCorrelationSynchronization(d.real(0.0, 1.0), d.real(0.0, 1.0), d.real(0.0, 1.0))])()
    p["channel_estimation"] = d.pick([ChannelEstimation, SingleCarrierLeastSquaresChannelEstimation])()
    p["channel_equalization"] = d.pick([ChannelEqualization, SingleCarrierZeroForcingChannelEqualization,
                                        SingleCarrierMinimumMeanSquareChannelEqualization])()
    return p


WAVEFORMS = {
    "raised cosine waveforms": lambda d: RaisedCosineWaveform(relative_bandwidth=d.pos(), roll_off=d.real(0.0, 1.0), filter_length=d.int(1), **single_carrier(d)),
    "root raised cosine waveforms": lambda d: RootRaisedCosineWaveform(relative_bandwidth=d.pos(), roll_off=d.real(0.0, 1.0), filter_length=d.int(1), **single_carrier(d)),
    "rectangular waveforms": lambda d: RectangularWaveform(**single_carrier(d)),
    "FMCW waveforms": lambda d: FMCWWaveform(d.int(1), **single_carrier(d)),
    "chirp FSK waveforms": lambda d: ChirpFSKWaveform(
        d.pos(), d.pick([0.0, 5.0]), d.int(0), d.int(0), d.real(0.0), modulation_order=d.pick([2, 4, 16]),
        synchronization=d.pick([Synchronization, lambda: ChirpFSKCorrelationSynchronization(d.real(0.0, 1.0), d.real(0.0, 1.0), d.real(0.0, 1.0))])())}


def grid(d):
    elements = [GridElement(ElementType.REFERENCE, 1), GridElement(d.pick(ElementType), 3)]
    resources = [GridResource(1, d.pick(PrefixType), d.real(0.0, 1.0), elements), GridResource(2, d.pick(PrefixType), 0.0, [GridElement(ElementType.DATA, 2)])]
    p = {"grid_resources": resources, "grid_structure": [SymbolSection(d.int(1), [0, 1, 0], d.int(0)), GuardSection(d.real(0.0), d.int(1)), SymbolSection(1, [1])],
         "num_subcarriers": 4, "modulation_order": d.pick([2, 4, 16])}
    p["pilot_section"] = d.pick([lambda: None, lambda: PilotSection(Symbols(d.array((1, 1, 3), "c"))), SchmidlCoxPilotSection])()
    p["repeat_pilot_sequence"] = d.bool()
    s = pilots(d)
    if s is not None:
        p["pilot_sequence"] = s
    p["channel_estimation"] = d.pick([ChannelEstimation, OrthogonalLeastSquaresChannelEstimation])()
    p["channel_equalization"] = d.pick([ChannelEqualization, OrthogonalZeroForcingChannelEqualization])()
    return p


WAVEFORMS["OFDM waveforms"] = lambda d: OFDMWaveform(dc_suppression=d.bool(), synchronization=d.pick(
    [Synchronization, SchmidlCoxSynchronization, lambda: OFDMCorrelationSynchronization(d.real(0.0, 1.0), d.real(0.0, 1.0), d.real(0.0, 1.0))])(), **grid(d))
WAVEFORMS["OTFS waveforms"] = lambda d: OTFSWaveform(dc_suppression=d.bool(), **grid(d))
WAVEFORMS["OCDM waveforms"] = lambda d: OCDMWaveform(**grid(d))
for NAME, MAKE in WAVEFORMS.items():
    component(NAME, variants=48)(MAKE)


def nr(w, d):
    """A 5G waveform with other than its default options."""
    w.modulation_order = d.pick([4, 16])
    w.dc_suppression = d.bool()
    w.channel_estimation = d.pick([OrthogonalLeastSquaresChannelEstimation, ChannelEstimation])()
    w.channel_equalization = d.pick([OrthogonalZeroForcingChannelEqualization, ChannelEqualization])()
    return w


component("5G NR slots", mode="bounded")(lambda d: nr(NRSlot(d.few(24, 26)), d))
component("5G NR subframes", mode="bounded")(lambda d: nr(NRSubframe(d.few(0, 2), d.few(24, 26)), d))
component("5G NR frames", mode="bounded")(lambda d: nr(NRFrame(d.few(0, 1), d.few(24, 25)), d))


def modem_parameters(d):
    return {"encoding": encoders(d), "waveform": d.maybe(lambda: WAVEFORMS["rectangular waveforms"](d)), "seed": d.seed()}


def transmit_parameters(d):
    return {"selected_transmit_ports": d.maybe(lambda: [0, 1]), "bits_source": RandomBitsSource(d.seed()),
            "transmit_symbol_coding": d.pick([[], [Alamouti()], [DFT(DFTNorm.FORWARD), Alamouti()]]),
            "transmit_signal_coding": d.pick([[], [ConventionalBeamformer()]])}


def receive_parameters(d):
    return {"selected_receive_ports": d.maybe(lambda: [0, 1]), "receive_symbol_coding": d.pick([[], [Alamouti()], [MaximumRatioCombining(), Alamouti()]]),
            "receive_signal_coding": d.pick([[], [CaponBeamformer(d.real(0.0))]])}


MODEMS = {
    "transmitting modems": lambda d: TransmittingModem(carrier_frequency=d.maybe(lambda: d.real(0.0)), **modem_parameters(d), **transmit_parameters(d)),
    "receiving modems": lambda d: ReceivingModem(carrier_frequency=d.maybe(lambda: d.real(0.0)), **modem_parameters(d), **receive_parameters(d)),
    "duplex modems": lambda d: DuplexModem(carrier_frequency=d.maybe(lambda: d.real(0.0)), **modem_parameters(d), **transmit_parameters(d), **receive_parameters(d)),
    "simplex links": lambda d: SimplexLink(carrier_frequency=d.maybe(lambda: d.real(0.0)), **modem_parameters(d), **transmit_parameters(d), **receive_parameters(d))}


@component("5G NR links", mode="bounded")
def nr_link(d):
    link = NRSlotLink(d.few(24, 26), d.maybe(lambda: d.pick([[0], [0, 1]])), d.maybe(lambda: d.pick([[0], [1, 0]])), d.maybe(lambda: d.real(0.0)),
                      RandomBitsSource(d.seed()), seed=d.seed())
    link.encoder_manager.add_encoder(RepetitionEncoder(4, 3))
    link.waveform.modulation_order = d.pick([4, 16])
    return link


for NAME, MAKE in MODEMS.items():
    component(NAME, variants=48)(MAKE)

OTHERS = {"random bits sources": lambda d: RandomBitsSource(d.seed()),
          "symbol mappings": lambda d: PskQamMapping(d.pick([2, 4, 16]), None, d.bool(), d.bool()),
          "Fourier transform precodings": lambda d: DFT(d.pick(DFTNorm)),
          "mapped pilot sequences": lambda d: MappedPilotSymbolSequence(PskQamMapping(d.pick([2, 4, 16]))),
          "symbols": lambda d: Symbols(d.array((1, d.few(1, 2), d.few(1, 3)), "c")),
          "grid elements": lambda d: GridElement(d.pick(ElementType), d.int(1)),
          "grid resources": lambda d: GridResource(d.int(1), d.pick(PrefixType), d.real(0.0, 1.0), [GridElement(d.pick(ElementType), d.int(1))]),
          "symbol sections": lambda d: SymbolSection(d.int(1), [0, 1], d.int(0)),
          "guard sections": lambda d: GuardSection(d.real(0.0), d.int(1)),
          "pilot sections": lambda d: PilotSection(d.maybe(lambda: Symbols(d.array((1, 1, 3), "c"))))}
EXTRAS = {"mapped pilot sequences": ("sequence",), "symbols": ("raw",), "Fourier transform precodings": ("fft_norm",)}
for NAME, MAKE in OTHERS.items():
    component(NAME, *EXTRAS.get(NAME, ()))(MAKE)

@component("stated symbols", "raw", "num_streams")
def stated(d):
    return StatedSymbols(d.array((1, 1, 3), "c"), d.array((1, 2, 1, 3), "c"))


def frame(d, n=3):
    return CommunicationTransmissionFrame(signal(d), d.array((n,), "i", 0, 1), d.int(1), d.array((n + 1,), "i", 0, 1), d.int(1),
                                          OTHERS["symbols"](d), OTHERS["symbols"](d), d.real(0.0))


def received_frame(d, n=3):
    return CommunicationReceptionFrame(signal(d), signal(d), OTHERS["symbols"](d), OTHERS["symbols"](d), d.real(0.0), OTHERS["symbols"](d),
                                       d.array((n + 1,), "i", 0, 1), d.int(1), d.array((n,), "i", 0, 1), d.int(1))


FRAME = ("signal", "bits", "encoded_bits", "symbols", "encoded_symbols", "timestamp", "bit_block_size", "code_block_size")
RFRAME = ("signal", "decoded_signal", "decoded_bits", "encoded_bits", "symbols", "decoded_symbols", "equalized_symbols", "timestamp",
          "bit_block_size", "code_block_size")


class Plain:
    """The fields of a record."""

    def __init__(self, obj, names):
        self.obj, self.names = obj, names


def fields(vc, label, a, b, names, seen=None):
    vc.prove(f"{label}: type", type(a) is type(b))
    for n in names:
        matching(vc, f"{label}.{n}", getattr(a, n), getattr(b, n), [] if seen is None else seen)


@contract("C16", "communication transmissions survive storing", n=12)
def communication_transmission(vc):
    d = Draw(vc, 24)
    t = CommunicationTransmission(signal(d), [frame(d), frame(d)])
    r = reloaded(vc, t)
    fields(vc, "transmission", t, r, ["signal"])
    vc.prove("number of frames", len(r.frames) == 2)
    for i in range(2):
        fields(vc, f"frame {i}", t.frames[i], r.frames[i], FRAME)


@contract("C16", "communication receptions survive storing", n=12)
def communication_reception(vc):
    d = Draw(vc, 24)
    t = CommunicationReception(signal(d), [received_frame(d), received_frame(d)])
    r = reloaded(vc, t)
    fields(vc, "reception", t, r, ["signal"])
    vc.prove("number of frames", len(r.frames) == 2)
    for i in range(2):
        fields(vc, f"frame {i}", t.frames[i], r.frames[i], RFRAME)


# radar ---------------------------------------------------------------------------------------------------------------
DETECTORS = {"threshold detectors": lambda d: ThresholdDetector(d.pos(), d.bool(), d.bool()),
             "maximum detectors": lambda d: MaxDetector(),
             "constant false alarm rate detectors": lambda d: CFARDetector((d.int(1), d.int(1)), (d.int(0), d.int(0)), d.real(0.0, 1.0))}
for NAME, MAKE in DETECTORS.items():
    component(NAME)(MAKE)


@component("FMCW radar waveforms")
def fmcw(d):
    return FMCW(d.int(1), d.pos(), d.pos(), d.pick([None, 1e9]))


def radar_parameters(d):
    return {"receive_beamformer": d.maybe(lambda: CaponBeamformer(d.real(0.0))), "detector": d.maybe(lambda: DETECTORS["threshold detectors"](d)),
            "min_range": d.real(0.0), "selected_transmit_ports": d.maybe(lambda: [0, 1]), "selected_receive_ports": d.maybe(lambda: [1]),
            "carrier_frequency": d.maybe(lambda: d.real(0.0)), "seed": d.seed()}


@component("radars", variants=48)
def radar(d):
    return Radar(d.maybe(lambda: fmcw(d)), **radar_parameters(d))


@component("matched filter JCAS operators", variants=48)
def matched_filter(d):
    return MatchedFilterJcas(d.pos(), d.maybe(lambda: WAVEFORMS["rectangular waveforms"](d)), max_velocity=d.real(0.0), velocity_resolution=d.pos(), **radar_parameters(d))


@component("OFDM radars", variants=48)
def ofdm_radar(d):
    return OFDMRadar(d.maybe(lambda: WAVEFORMS["OFDM waveforms"](d)), **radar_parameters(d))


def cube(d):
    s = (d.few(1, 2), d.few(1, 2), d.few(1, 3))
    return RadarCube(d.array(s, "f", 0.0), d.array((s[0], 2)), d.array((s[1],)), d.array((s[2],), "f", 0.0), d.real(0.0))


CUBE = ("data", "angle_bins", "doppler_bins", "range_bins", "carrier_frequency")
POINT = ("position", "velocity", "power")


@contract("C16", "radar receptions survive storing", n=12)
def radar_reception(vc):
    d = Draw(vc)
    cloud = RadarPointCloud(d.real(0.0))
    for _ in range(2):
        cloud.add_point(PointDetection(d.array((3,)), d.array((3,)), d.pos()))
    t = RadarReception(signal(d), cube(d), cloud if d.bool() else None)
    r = reloaded(vc, t)
    fields(vc, "reception", t, r, ["signal"])
    fields(vc, "cube", t.cube, r.cube, CUBE)
    vc.prove("point cloud", (r.cloud is None) == (t.cloud is None))
    if t.cloud is not None:
        matching(vc, "maximum range", t.cloud.max_range, r.cloud.max_range, [])
        vc.prove("number of points", len(r.cloud.points) == 2)
        for i in range(2):
            fields(vc, f"point {i}", t.cloud.points[i], r.cloud.points[i], POINT)


# evaluators ----------------------------------------------------------------------------------------------------------
EVALUATION = ("confidence", "tolerance", "min_num_samples", "plot_scale", "tick_format", "plot_surface")


def evaluation(d):
    return {"confidence": d.real(0.0, 1.0), "tolerance": d.real(0.0), "min_num_samples": d.int(2), "plot_scale": d.pick(["log", "linear"]),
            "tick_format": d.pick(ValueType), "plot_surface": d.bool()}


for NAME, EVALUATOR in (("bit error", BitErrorEvaluator), ("block error", BlockErrorEvaluator), ("frame error", FrameErrorEvaluator),
                        ("constellation error", ConstellationEVM), ("throughput", ThroughputEvaluator)):
    @contract("C16", f"{NAME} evaluators survive storing", n=12)
    def communication_evaluator(vc, EVALUATOR=EVALUATOR):
        d = Draw(vc, 24)
        link = MODEMS["simplex links"](d)
        e = EVALUATOR(link, link, **evaluation(d)) if EVALUATOR is not ThroughputEvaluator else EVALUATOR(link, link, d.bool())
        r = reloaded(vc, e)
        matching(vc, "evaluator", e, r, [], EVALUATION)
        vc.prove("still a single link", r.transmitting_modem is r.receiving_modem)


@component("detection probability evaluators", "radar", *EVALUATION, variants=24)
def detection_evaluator(d):
    return DetectionProbEvaluator(radar(d), **evaluation(d))


def small_device(d):
    return SimulatedDevice(carrier_frequency=d.real(0.0), power=d.real(0.0))


DETECTION = ("receiving_radar", "transmitting_device", "receiving_device", "radar_channel")
for NAME, EVALUATOR in ("operating characteristics", ReceiverOperatingCharacteristic), ("root mean square errors", RootMeanSquareError):
    @contract("C16", f"{NAME} survive storing", n=12)
    def detection_performance(vc, EVALUATOR=EVALUATOR):
        d = Draw(vc, 24)
        rx, operator = small_device(d), radar(d)
        tx = d.pick([rx, small_device(d)])
        rx.receivers.add(operator)
        channel = CHANNELS["single target radar channels"](d)
        more = {"num_thresholds": d.int(2)} if EVALUATOR is ReceiverOperatingCharacteristic else {}
        e = EVALUATOR(operator, tx, rx, channel, **more)
        e.plot_scale, e.tick_format = d.pick(["log", "linear"]), d.pick(ValueType)
        r = reloaded(vc, e)
        matching(vc, "evaluator", e, r, [], DETECTION + ("plot_scale", "tick_format"))
        vc.prove("the radar operates the receiving device", any(o is r.receiving_radar for o in r.receiving_device.receivers))
        vc.prove("devices are distinct", (r.receiving_device is r.transmitting_device) == (rx is tx))


for NAME, EVALUATOR in ("self-interference", SI), ("signal to self-interference", SSINR):
    component(f"{NAME} evaluators", *EVALUATION)(lambda d, EVALUATOR=EVALUATOR: EVALUATOR(small_device(d), **evaluation(d)))


@component("sidelobe evaluators", "codebook", "plot_surface", "mode")
def sidelobe(d):
    return SidelobeEvaluator(small_device(d), d.pick([AntennaMode.TX, AntennaMode.RX]), spherical(d), d.array((3, 2)), d.bool())


# devices, scenarios and drops ----------------------------------------------------------------------------------------
@component("bit energy noise levels", "reference", "level")
def bit_energy_noise(d):
    modem = d.pick([TransmittingModem, ReceivingModem])(waveform=ChirpFSKWaveform(modulation_order=d.pick([2, 4])))
    return EBN0(d.pick([modem, modem.waveform]), d.pos())


@component("symbol energy noise levels", "reference", "level")
def symbol_energy_noise(d):
    modem = d.pick([TransmittingModem, ReceivingModem])(waveform=ChirpFSKWaveform(modulation_order=d.pick([2, 4])))
    return ESN0(d.pick([modem, modem.waveform]), d.pos())


@component("simulated devices", "transmitters", "receivers", "antennas", "trajectory", "noise_level", variants=48)
def simulated_device(d):
    p = {"antennas": SimulatedUniformArray(SimulatedIdealAntenna, d.pos(), [2, 1, 1]), "isolation": d.maybe(lambda: specific_isolation(d)),
         "coupling": d.maybe(lambda: impedance(d)), "trigger_model": d.pick(list(TRIGGERS.values())[:5])(d), "carrier_frequency": d.real(0.0),
         "bandwidth": d.pos(), "oversampling_factor": d.int(1), "operator_separation": d.bool(), "pose": d.pose(), "power": d.real(0.0), "seed": d.seed()}
    p.update(noise(d))
    p["transmit_dsp"] = [signal_transmitter(d)] if d.bool() else []
    p["receive_dsp"] = [signal_receiver(d)] if d.bool() else []
    p["transmit_encoding"] = [ConventionalBeamformer()] if d.bool() else []
    p["receive_decoding"] = [CaponBeamformer(d.real(0.0))] if d.bool() else []
    device = SimulatedDevice(**p)
    if d.bool():
        device.noise_level = SNR(d.pos(), device)
    return device


# chains of radio-frequency blocks ------------------------------------------------------------------------------------
CHAIN_BLOCKS = {"dac": lambda d: DAC(num_ports=2), "split": lambda d: Split(2), "sum": lambda d: Sum(2),
                "amplifier": lambda d: PowerAmplifier(gain=4.0), "shift": lambda d: Shift(d.pick([0.1, 0.7, 1.1]), 0, 2)}
CHAINS = (
    (("dac", "amplifier"), ((0, [1], 1, [0]),)),
    (("dac", "shift", "sum"), ((0, [1, 0], 1, [0, 1]), (1, [1, 0], 2, [0, 1]))),
    (("dac", "split", "shift", "sum"), ((0, [1], 1, [0]), (1, [1, 0], 2, [0, 1]), (2, [0, 1], 3, [1, 0]))),
    (("dac", "shift", "shift", "sum"), ((0, [0], 1, [1]), (0, [1], 2, [0]), (1, [1], 3, [1]), (2, [0], 3, [0]))))


@bounded("C16", "chains of radio-frequency blocks survive storing", n=24, bound="sampled topologies, blocks and signals")
def rf_chain(vc):
    d = Draw(vc)
    blocks, connections = vc.choice("topology", list(CHAINS))
    chain = RFChain(d.seed())
    refs = [chain.add_block(CHAIN_BLOCKS[b](d)) for b in blocks]
    for a, out, b, inp in connections:
        chain.connect(RFBlockPortReference(refs[a], out, RFBlockPortType.OUT), RFBlockPortReference(refs[b], inp, RFBlockPortType.IN))
    again = reloaded(vc, chain)
    vc.prove("seed", again.seed == chain.seed)
    x = RFSignal.FromNDArray(vc.rng.normal(size=(2, 5)) + 1j * vc.rng.normal(size=(2, 5)), 1e6, np.full(2, 1e9), np.zeros(2), 0.0)
    expected = chain.transmit(x, chain.realize(1e6, 1, 1e9))
    y = again.transmit(x, again.realize(1e6, 1, 1e9))
    vc.eq("same transmission", np.asarray(y), np.asarray(expected))


@bounded("C16", "presets of radio-frequency chains survive storing", n=16, bound="sampled parameters and signals")
def preset(vc):
    d = Draw(vc)
    kind = vc.choice("preset", [X410, TIXWR1843])
    if kind is X410:
        tx, rx, phase_noise = d.few(1, 3), d.few(1, 2), d.bool()
        chain = X410(d.pick([1e9, 5e9]), tx, rx, d.pick([1.0, 30.0]), d.pick([2.0, 3.0]), phase_noise, d.seed())
    else:
        chain = TIXWR1843(d.pick([77e9, 78e9]), d.few(1, 20), d.pick([1e9, 3e9]), d.pick([1e13, 1e14]), d.pick([3e-5, 1e-4]),
                          d.pick([1e5, 2e5]), d.seed())
    again = reloaded(vc, chain)
    vc.prove("type", type(again) is type(chain), lambda: f"{type(again)}")
    vc.prove("seed", again.seed == chain.seed)
    parts = [[r.block for r in c._RFChain__block_references] for c in (chain, again)]
    vc.prove("number of blocks", len(parts[0]) == len(parts[1]))
    for i, (x, y) in enumerate(zip(*parts)):
        matching(vc, f"block {i}", x, y, [])
    for n in "energy", "power", "range_bins", "frame_duration", "max_range", "range_resolution", "max_relative_doppler", "relative_doppler_resolution", "relative_doppler_bins":
        if hasattr(chain, n):
            x, y = ((v(1e9, 1) if n == "energy" else v(1e9)) if callable(v) else v for v in (read(chain, n), read(again, n)))
            vc.eq(n, np.asarray(y), np.asarray(x))
    if kind is X410 and not phase_noise:
        x = RFSignal.FromNDArray(vc.rng.normal(size=(tx, 5)) + 1j * vc.rng.normal(size=(tx, 5)), 1e6, np.full(tx, 1e9), np.zeros(tx), 0.0)
        vc.eq("same transmission", np.asarray(again.transmit(x, again.realize(1e6, 1, 1e9))), np.asarray(chain.transmit(x, chain.realize(1e6, 1, 1e9))))


def sampled(vc, shape=(1, 5)):
    return Signal.Create(vc.rng.normal(size=shape) + 1j * vc.rng.normal(size=shape), 1e6 * (1 + vc.rng.random()), 1e9, vc.rng.random(), vc.rng.random())


def signals(vc, label, a, b):
    """The same signals."""
    vc.prove(f"{label}: number", len(a) == len(b))
    for i, (x, y) in enumerate(zip(a, b)):
        matching(vc, f"{label} {i}", x, y, [])


def results(vc, label, a, b):
    """The same operator results."""
    vc.prove(f"{label}: number", len(a) == len(b))
    for i, (x, y) in enumerate(zip(a, b)):
        vc.prove(f"{label} {i}: type", type(x) is type(y), lambda x=x, y=y: f"{type(y)} instead of {type(x)}")
        matching(vc, f"{label} {i}: signal", x.signal, y.signal, [])
        for f, (u, v) in enumerate(zip(getattr(x, "frames", ()), getattr(y, "frames", ()))):
            fields(vc, f"{label} {i}: frame {f}", u, v, FRAME if isinstance(u, CommunicationTransmissionFrame) else RFRAME)
        if getattr(x, "cube", None) is not None:
            fields(vc, f"{label} {i}: cube", x.cube, y.cube, CUBE)
            vc.prove(f"{label} {i}: cloud", (x.cloud is None) == (y.cloud is None))
            if x.cloud is not None:
                vc.prove(f"{label} {i}: points", len(x.cloud.points) == len(y.cloud.points))
                for u, v in zip(x.cloud.points, y.cloud.points):
                    fields(vc, f"{label} {i}: point", u, v, POINT)


def transmissions(vc, label, a, b):
    vc.prove(f"{label}: type", type(a) is type(b), lambda: f"{type(b)} instead of {type(a)}")
    matching(vc, f"{label}: mixed signal", a.mixed_signal, b.mixed_signal, [])
    results(vc, f"{label}: operators", a.operator_transmissions, b.operator_transmissions)
    if isinstance(a, SimulatedDeviceTransmission):
        signals(vc, f"{label}: emerging signals", a.emerging_signals, b.emerging_signals)
        signals(vc, f"{label}: leaking signals", a.leaking_signals, b.leaking_signals)
        fields(vc, f"{label}: trigger", a.trigger_realization, b.trigger_realization, ("num_offset_samples", "sampling_rate"))


def receptions(vc, label, a, b):
    vc.prove(f"{label}: type", type(a) is type(b), lambda: f"{type(b)} instead of {type(a)}")
    signals(vc, f"{label}: impinging signals", a.impinging_signals, b.impinging_signals)
    signals(vc, f"{label}: operator inputs", a.operator_inputs, b.operator_inputs)
    results(vc, f"{label}: operators", a.operator_receptions, b.operator_receptions)
    if isinstance(a, SimulatedDeviceReception):
        vc.prove(f"{label}: leakage", (a.leaking_signal is None) == (b.leaking_signal is None))
        signals(vc, f"{label}: leaking signal", [s for s in [a.leaking_signal] if s is not None], [s for s in [b.leaking_signal] if s is not None])
        matching(vc, f"{label}: baseband signal", a.baseband_signal, b.baseband_signal, [])
        vc.prove(f"{label}: operator separation", a.operator_separation == b.operator_separation)
        fields(vc, f"{label}: trigger", a.trigger_realization, b.trigger_realization, ("num_offset_samples", "sampling_rate"))
        fields(vc, f"{label}: noise", a.noise_realization, b.noise_realization, ("power", "seed"))


def linked(vc):
    """A scenario of two devices."""
    d = Draw(vc)
    s = SimulationScenario(seed=d.pick([1, 5]))
    devices = [s.new_device(carrier_frequency=1e9, bandwidth=1e6, oversampling_factor=2, noise_level=N0(1e-3),
                            trigger_model=SampleOffsetTrigger(d.few(0, 3)), isolation=d.pick([lambda: PerfectIsolation(), lambda: SpecificIsolation(np.array([[0.5]]))])())
               for _ in range(2)]
    link = SimplexLink(waveform=RootRaisedCosineWaveform(num_data_symbols=d.few(40, 44), num_preamble_symbols=2, modulation_order=d.pick([2, 4])), seed=d.pick([None, 4]))
    devices[0].transmitters.add(link)
    devices[1].receivers.add(link)
    if d.bool():
        radar = Radar(FMCW(2, 1e-4, 2e-4), detector=d.pick([None, ThresholdDetector(0.5)]))
        devices[0].add_dsp(radar)
    s.set_channel(devices[0], devices[1], IdealChannel(d.pick([1.0, 0.5])))
    return s, devices, link


@bounded("C16", "simulated drops survive storing", n=10, bound="sampled scenarios of two devices")
def simulated_drop(vc):
    s, devices, link = linked(vc)
    drop = s.drop()
    r = reloaded(vc, drop)
    vc.eq("timestamp", r.timestamp, drop.timestamp)
    vc.prove("number of devices", (r.num_device_transmissions, r.num_device_receptions) == (2, 2))
    for i in range(2):
        transmissions(vc, f"transmission {i}", drop.device_transmissions[i], r.device_transmissions[i])
        receptions(vc, f"reception {i}", drop.device_receptions[i], r.device_receptions[i])
    a, b = drop.channel_realizations, r.channel_realizations
    vc.prove("channel realizations", [type(x) for x in a] == [type(x) for x in b])
    vc.prove("number of channel realizations", len(a) == len(b))
    for x, y in zip(a, b):
        vc.eq("gain of realizations", y.gain, x.gain)


@bounded("C16", "plain device records survive storing", n=10, bound="sampled signals and operators")
def device_records(vc):
    operators = [Transmission(sampled(vc)) for _ in range(vc.choice("operators", [0, 1, 2]))]
    t = DeviceTransmission(operators, sampled(vc))
    transmissions(vc, "transmission", t, reloaded(vc, t))
    received = [Reception(sampled(vc)) for _ in range(vc.choice("receptions", [0, 1, 2]))]
    a = DeviceReception([sampled(vc), sampled(vc)], [sampled(vc) for _ in received], received)
    receptions(vc, "reception", a, reloaded(vc, a))
    drop = Drop(vc.rng.random(), [t, t], [a])
    r = reloaded(vc, drop)
    vc.eq("timestamp", r.timestamp, drop.timestamp)
    vc.prove("number of records", (len(r.device_transmissions), len(r.device_receptions)) == (2, 1))
    transmissions(vc, "transmission of a drop", t, r.device_transmissions[1])
    receptions(vc, "reception of a drop", a, r.device_receptions[0])


# the serialisation process -------------------------------------------------------------------------------------------
class Node(Serializable):
    """A record of arbitrary values, some of which are created while being stored."""

    def __init__(self, content=()):
        self.content = list(content)

    def serialize(self, process):
        for name, kind, value in self.content:
            if kind == "array":
                process.serialize_array(value, name)
            elif kind == "temporary":
                process.serialize_array(value * 1.0, name)
            elif kind == "integer":
                process.serialize_integer(value, name)
            elif kind == "floating":
                process.serialize_floating(value, name)
            elif kind == "complex":
                process.serialize_complex(value, name)
            elif kind == "string":
                process.serialize_string(value, name)
            elif kind == "object":
                process.serialize_object(value, name)
            elif kind == "created":
                process.serialize_object(Node(value.content), name)
            elif kind == "sequence":
                process.serialize_object_sequence(value, name)
            elif kind == "appended":
                process.serialize_object_sequence(value[:1], name)
                process.serialize_object_sequence(value[1:], name, append=True)
            elif kind == "range":
                process.serialize_range(value, name)
            else:
                process.serialize_custom(name, Node(value.content).serialize)

    @classmethod
    def read(cls, process, content):
        found = []
        for name, kind, value in content:
            if name == "shape":
                continue
            if kind in ("array", "temporary"):
                found.append(process.deserialize_array(name, value.dtype))
            elif kind in ("integer", "floating", "complex", "string"):
                found.append(getattr(process, f"deserialize_{kind}")(name))
            elif kind in ("object", "created"):
                found.append(process.deserialize_object(name, Node))
            elif kind in ("sequence", "appended"):
                found.append((list(process.deserialize_object_sequence(name, Node)), list(process.deserialize_object_sequence(name, Node, 1, 3)),
                              process.sequence_length(name)))
            elif kind == "range":
                found.append(process.deserialize_range(name))
            else:
                found.append(process.deserialize_custom(name, lambda p: cls.read(p, value.content)))
        return found

    @classmethod
    def Deserialize(cls, process):
        node = cls()
        shape = str(process.deserialize_string("shape"))
        node.found = cls.read(process, SHAPES[shape].content)
        node.missing = [process.deserialize_array("n/a", np.float64, None), process.deserialize_integer("n/a", -3), process.deserialize_floating("n/a", 2.5),
                        process.deserialize_complex("n/a", 1j), process.deserialize_string("n/a", "text"), process.deserialize_object("n/a", Node, None),
                        process.deserialize_integer("n/a", None), process.deserialize_range("n/a", None), list(process.deserialize_object_sequence("n/a", Node)),
                        process.sequence_length("n/a")]
        node.errors = []
        for f in (lambda: process.deserialize_array("n/a", np.float64), lambda: process.deserialize_integer("n/a"), lambda: process.deserialize_floating("n/a"),
                  lambda: process.deserialize_complex("n/a"), lambda: process.deserialize_string("n/a"), lambda: process.deserialize_object("n/a", Node)):
            try:
                f()
                node.errors.append(False)
            except RuntimeError:
                node.errors.append(True)
        return node

    @classmethod
    def serialization_tag(cls):
        return "C16Node"


SHAPES = {}
KINDS = ("array", "temporary", "integer", "floating", "complex", "string", "object", "created", "sequence", "appended", "range", "custom")
TEXTS = ("", "None", "undefined", "text", "\u00e4 \u03c0", "0")


def tree(vc, depth, shared, arrays):
    """An arbitrary record referring to shared objects and arrays."""
    rng, content = vc.rng, []
    for k in range(rng.integers(1, 7)):
        kind = str(rng.choice(KINDS if depth else KINDS[:6]))
        if kind in ("array", "temporary"):
            if len(arrays) and rng.random() < 0.4:
                value = arrays[rng.integers(len(arrays))]
            else:
                shape = tuple(rng.integers(0, 4, rng.integers(1, 4)))
                value = rng.normal(size=shape) + (1j if kind == "array" and rng.random() < 0.5 else 0.0)
                arrays.append(value)
        elif kind == "integer":
            value = int(rng.choice([0, -1, 1, 2 ** 62, -2 ** 63, 7]))
        elif kind == "floating":
            value = float(rng.choice([0.0, -0.0, 1e-300, np.inf, -2.5, 1e308]))
        elif kind == "complex":
            value = complex(rng.normal(), rng.normal())
        elif kind == "string":
            value = TEXTS[rng.integers(len(TEXTS))]
        elif kind == "range":
            value = float(rng.random()) if rng.random() < 0.5 else (float(rng.random()), 2.0)
        elif kind in ("sequence", "appended"):
            value = [node(vc, depth - 1, shared, arrays) for _ in range(rng.integers(1, 4))]
        else:
            value = node(vc, depth - 1, shared, arrays)
        content.append((f"value {k}", kind, value))
    return content


def node(vc, depth, shared, arrays):
    if shared and vc.rng.random() < 0.4:
        return shared[vc.rng.integers(len(shared))]
    n = Node(tree(vc, depth, shared, arrays))
    name = f"{len(SHAPES)}"
    SHAPES[name] = Node(list(n.content))
    n.content.insert(0, ("shape", "string", name))
    shared.append(n)
    return n


def same(vc, label, content, found, seen):
    """Every value found is the one stored, and objects stored several times are loaded once."""
    vc.prove(f"{label}: number of values", len(content) == len(found))
    for (name, kind, value), f in zip(content, found):
        if kind in ("array", "temporary"):
            vc.prove("arrays", f.dtype == value.dtype and f.shape == value.shape and bool(np.all(f == value)), lambda f=f, value=value: f"{f} instead of {value}")
        elif kind in ("integer", "floating", "complex", "string"):
            vc.prove(f"{kind} values", type(f) is type(value) and f == value, lambda f=f, value=value: f"{f!r} instead of {value!r}")
        elif kind == "range":
            vc.prove("ranges", (tuple(f) if isinstance(value, tuple) else f) == value, lambda f=f, value=value: f"{f!r} instead of {value!r}")
        elif kind in ("object", "created"):
            record(vc, value, f, seen if kind == "object" else None, seen)
        elif kind == "custom":
            same(vc, label, [c for c in value.content if c[0] != "shape"], f, seen)
        else:
            everything, part, count = f
            vc.prove("lengths of sequences", len(everything) == len(value) == count)
            vc.prove("parts of sequences", len(part) == len(value[1:3]) and all(x is y for x, y in zip(part, everything[1:3])))
            for v, g in zip(value, everything):
                record(vc, v, g, seen, seen)


def record(vc, value, f, known, seen):
    vc.prove("type of objects", type(f) is Node)
    if known is not None:
        for a, b in known:
            if a is value or b is f:
                vc.prove("shared objects are loaded once", a is value and b is f)
                return
        known.append((value, f))
    vc.prove("defaults of missing values", f.missing == [None, -3, 2.5, 1j, "text", None, None, None, [], 0], lambda: f"{f.missing}")
    vc.prove("errors for missing values", all(f.errors), lambda: f"{f.errors}")
    same(vc, "record", [c for c in value.content if c[0] != "shape"], f.found, seen)


@bounded("C16", "files keep every stored value", n=60, bound="sampled trees of values")
def process_contract(vc):
    from h5py import File
    SHAPES.clear()
    root = node(vc, 3, [], [])
    tags = {**registry(), "C16Node": Node}
    file = File("c16.h5", "w", driver="core", backing_store=False)
    try:
        campaign = vc.choice("campaign", [None, "first"])
        HDFSerializationProcess.New(tags, file, campaign).serialize_object(root, "root")
        loaded = HDFDeserializationProcess.New(tags, file, campaign).deserialize_object("root", Node)
    finally:
        file.close()
    record(vc, root, loaded, [], [])


@bounded("C16", "simulation scenarios survive storing", n=10, bound="sampled scenarios of up to three devices")
def scenario(vc):
    d = Draw(vc)
    s = SimulationScenario(default_channel=IdealChannel(d.pick([1.0, 0.5])), seed=d.seed(), noise_level=d.maybe(lambda: N0(d.pick([0.0, 1e-3]))),
                           noise_model=d.maybe(lambda: AWGN(d.seed())))
    n = d.few(1, 3)
    devices = [s.new_device(carrier_frequency=1e9 * (i + 1), power=d.pick([0.0, 2.0]), noise_level=N0(1e-3)) for i in range(n)]
    kinds = ("ideal channels", "spatial delay channels", "random delay channels")
    shared = CHANNELS["ideal channels"](d)
    for i in range(n):
        for j in range(i + 1):
            if d.bool():
                s.set_channel(devices[j], devices[i], shared if d.bool() else CHANNELS[d.pick(kinds)](d))
    if d.bool():
        s.noise_level = SNR(2.0, devices[-1])
        if d.bool():
            s.noise_level = SNR(2.0, devices[-1], s.channel(devices[0], devices[-1]))
    r = reloaded(vc, s)
    vc.prove("number of devices", r.num_devices == n)
    vc.prove("seed", r.seed == s.seed)
    for i in range(n):
        matching(vc, f"device {i}", devices[i], r.devices[i], [])
        for j in range(n):
            matching(vc, f"channel {i} {j}", s.channel(devices[i], devices[j]), r.channel(r.devices[i], r.devices[j]), [])
            for k in range(n):
                vc.prove("shared channels", (s.channel(devices[i], devices[j]) is s.channel(devices[i], devices[k]))
                         == (r.channel(r.devices[i], r.devices[j]) is r.channel(r.devices[i], r.devices[k])))
    if isinstance(s.noise_level, SNR):
        vc.prove("noise level: type", isinstance(r.noise_level, SNR))
        vc.eq("noise level", r.noise_level.snr, s.noise_level.snr)
        vc.prove("noise reference", r.noise_level.reference is r.devices[-1])
        for x in s, r:
            x.channel(x.devices[0], x.devices[-1]).realize().sample(x.devices[0], x.devices[-1])
        vc.eq("noise power depends on the same channel", r.noise_level.get_power(1.0), s.noise_level.get_power(1.0))
    else:
        matching(vc, "noise level", s.noise_level, r.noise_level, [])
    matching(vc, "noise model", s.noise_model, r.noise_model, [])


# components which are known not to survive storing, see known_findings.json ------------------------------------------
@bounded("C16", "ideal channel estimations survive storing", n=2, bound="both kinds")
def ideal_estimation(vc):
    kind = vc.choice("kind", [SingleCarrierIdealChannelEstimation, OFDMIdealChannelEstimation])
    s = SimulationScenario()
    a = s.new_device(carrier_frequency=1e9)
    estimation = kind(s.channel(a, a), a, a)
    try:
        loaded = reloaded(vc, estimation)
        kept = type(loaded) is kind and type(loaded.channel) is type(s.channel(a, a))
    except TypeError:
        kept = False
    vc.prove("an ideal channel estimation is loaded with its channel", kept)


@bounded("C16", "noise levels relative to another device survive storing", n=1, bound="one scenario of two devices")
def foreign_ratio(vc):
    s = SimulationScenario()
    a, b = [s.new_device(carrier_frequency=1e9) for _ in range(2)]
    a.noise_level = SNR(3.0, b)
    level = reloaded(vc, s).devices[0].noise_level
    vc.prove("a device keeps its signal-to-noise ratio relative to another device", isinstance(level, SNR) and level.snr == 3.0)


@bounded("C16", "dummies of physical devices survive storing", n=1, bound="one configuration")
def physical_dummy(vc):
    dummy = PhysicalDeviceDummy(receive_transmission=False, max_receive_delay=1e-3, lowpass_filter=True, lowpass_bandwidth=3e5,
                                bandwidth=2e6, power=3.0, seed=5)
    loaded = reloaded(vc, dummy)
    for n in ("bandwidth", "power", "seed"):
        vc.eq(n, getattr(loaded, n), getattr(dummy, n))
    vc.prove("a dummy keeps the parameters it does not share with simulated devices",
             all(getattr(loaded, n) == getattr(dummy, n) for n in ("receive_transmission", "max_receive_delay", "lowpass_filter", "lowpass_bandwidth")))
