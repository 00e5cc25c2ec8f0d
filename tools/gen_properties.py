#!/usr/bin/env python3
"""Writes properties.jsonl (kept as code so that the entries stay uniform)."""
import json, pathlib

P = []


def prop(id, title, statement, over, text, why, files, mechanism, observe):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, state=[], mechanism=[dict(name=n, where=w) for n, w in mechanism],
                               observe_at=observe, hook_needed=None)))


prop("C01", "Channel coding pipeline is lossless for any chain and any bit stream",
     "Encoding any bit stream with a pipeline of channel coding steps and decoding the unmodified code returns the "
     "original bits, for every stream length, every enabled/disabled combination and every compatible choice of block "
     "sizes, including streams that need padding. The encoded length is an integer number of code blocks (or exactly "
     "the requested number of code bits) and the caller's input array is left unmodified.",
     ["inputs", "configurations"], "all bit vectors, all block sizes, all chains of coding steps whose block sizes nest",
     "tests/unit_tests/fec/test_coding.py tries a few fixed encoder mocks and lengths; off-by-one block arithmetic shows "
     "only for particular length/block-size/chain combinations.",
     ["hermespy/fec/coding.py"],
     [("EncoderManager.encode / decode", "hermespy/fec/coding.py"), ("EncoderManager.bit_block_size", "hermespy/fec/coding.py")],
     ["EncoderManager.encode", "EncoderManager.decode", "EncoderManager.required_num_data_bits"])

prop("C02", "Every coding step inverts itself block by block at its declared size",
     "For every channel coding step (repetition, block interleaving, both scramblers, checksum mock) and every data block "
     "of its declared data block size, encoding yields exactly the declared code block size and decoding that code "
     "returns the data block. The repetition code additionally corrects every pattern of fewer than half flipped copies "
     "per bit, and the interleaver is a pure permutation of positions.",
     ["inputs", "configurations", "histories"], "all data blocks, all block sizes / repetition counts / interleaver widths / seeds, any number of consecutive blocks",
     "Unit tests sample a handful of block sizes and seeds; the claim is for every block size and for every register "
     "history of the scramblers.",
     ["hermespy/fec/repetition_encoder.py", "hermespy/fec/block_interleaver.py", "hermespy/fec/scrambler.py", "hermespy/fec/cyclic_redundancy_check.py"],
     [("Encoder.encode/decode implementations", "hermespy/fec/*.py")],
     ["encode", "decode", "bit_block_size", "code_block_size"])

prop("C03", "Constellation mapping is a unit-energy bijection and detection inverts it",
     "For every supported modulation order, complex or real valued, mapping any bit sequence to symbols and detecting the "
     "noiseless symbols returns exactly these bits, and the constellation has unit average energy. Soft detection never "
     "contradicts hard detection in sign, scales inversely with the noise variance, and detection of any received symbol "
     "decides for a constellation point with minimal distance.",
     ["inputs", "configurations"], "all bit sequences, all received complex symbols, all positive noise variances, all supported orders",
     "tests check a few random bit strings and selected received symbols; a wrong slope or threshold in one of the "
     "piecewise-linear branches only matters inside one interval of the complex plane.",
     ["hermespy/modem/tools/psk_qam_mapping.py"],
     [("PskQamMapping.get_symbols", "hermespy/modem/tools/psk_qam_mapping.py"), ("PskQamMapping.get_llr_3gpp", "hermespy/modem/tools/psk_qam_mapping.py")],
     ["PskQamMapping.get_symbols", "PskQamMapping.detect_bits", "PskQamMapping.get_mapping"])

prop("C04", "Orthogonal resource grids place and recover every data symbol exactly once",
     "For every grid configuration, placing the frame's data symbols onto the resource grid and picking them again "
     "returns the same symbols in the same order, the data/reference/null roles partition each resource, and the "
     "announced number of data symbols, reference symbols, words and samples equals what is actually placed. Modulating "
     "a grid and demodulating the unimpaired samples returns the grid for every prefix type and ratio, pattern, guard "
     "section, subcarrier count and oversampling factor.",
     ["inputs", "configurations"], "all resource/pattern/section configurations, symbols, oversampling factors",
     "tests use two or three fixed frame layouts; counting and offset mistakes need specific element/repetition/prefix combinations.",
     ["hermespy/modem/waveforms/orthogonal/waveform.py", "hermespy/modem/waveforms/orthogonal/ofdm.py", "hermespy/modem/waveforms/orthogonal/ocdm.py", "hermespy/modem/waveforms/orthogonal/otfs.py"],
     [("GridSection.place_symbols/pick_symbols", "hermespy/modem/waveforms/orthogonal/waveform.py"), ("SymbolSection.place_samples/pick_samples", "hermespy/modem/waveforms/orthogonal/waveform.py"), ("OFDMWaveform._forward/_backward_transformation", "hermespy/modem/waveforms/orthogonal/ofdm.py")],
     ["OrthogonalWaveform.place", "OrthogonalWaveform.pick", "modulate", "demodulate", "samples_per_frame"])

prop("C05", "Symbol precodings are inverted by their decoders over any flat channel",
     "For every block of data symbols and every non-degenerate frequency-flat channel state that is constant over a code "
     "word, space-time encoding, propagation and decoding return the transmitted symbols, maximum ratio combining returns "
     "the transmitted symbol, and DFT precoding is undone by its decoder under every normalisation. Encoders and decoders "
     "output the number of streams and blocks they announce.",
     ["inputs", "configurations"], "all complex symbols, all channel coefficients with non-zero norm, all block and symbol counts",
     "tests use fixed random draws with a tolerance; sign or conjugation errors can cancel for special channels (e.g. ideal ones).",
     ["hermespy/modem/precoding/space_time_block_coding.py", "hermespy/modem/precoding/ratio_combining.py", "hermespy/modem/precoding/dft.py", "hermespy/modem/precoding/symbol_precoding.py", "hermespy/core/precoding.py"],
     [("Alamouti / Ganesan encode_symbols, decode_symbols", "hermespy/modem/precoding/space_time_block_coding.py"), ("MaximumRatioCombining.decode_symbols", "hermespy/modem/precoding/ratio_combining.py")],
     ["encode_symbols", "decode_symbols", "num_transmit_input_streams", "num_receive_output_streams"])

prop("C06", "Monte Carlo scheduling samples every grid section exactly as often as requested",
     "Whatever the grid shape, sample count and batch size, repeatedly requesting batches schedules every grid section "
     "exactly the requested number of times unless the section is declared confident, never schedules a section after it "
     "was declared confident, and always terminates with an empty batch. The reported progress always lies between zero "
     "and one, never decreases, and is one exactly when nothing remains to be scheduled.",
     ["histories", "configurations", "schedules"], "all grids, sample counts, batch sizes and all interleavings of batch requests and early-stopping notices",
     "tests run a few batches on one small grid; skipping or double counting needs a batch that exhausts a section while wrapping around.",
     ["hermespy/core/pymonte/actors.py"],
     [("MonteCarloQueueManager.next_batch / disable_section / query_progress", "hermespy/core/pymonte/actors.py")],
     ["MonteCarloQueueManager.next_batch", "MonteCarloQueueManager.query_progress"])

prop("C07", "Monte Carlo statistics are the exact per-section mean, in any arrival order",
     "After any sequence of artifacts, the scalar result of each grid section is the arithmetic mean of exactly the "
     "non-empty artifacts reported for that section, independent of arrival order, and sections never influence each other. "
     "A section is only declared confident at a multiple of the configured minimum number of samples, with a positive "
     "sample deviation, and when the confidence criterion on mean tolerance is met.",
     ["histories", "inputs"], "all artifact sequences, grids, coordinates and confidence settings",
     "tests feed short constant or random lists to one section.",
     ["hermespy/core/pymonte/scalar.py", "hermespy/core/pymonte/artifact.py", "hermespy/core/evaluators.py"],
     [("ScalarEvaluationResult.add_artifact / to_array", "hermespy/core/pymonte/scalar.py")],
     ["ScalarEvaluationResult.add_artifact", "ScalarEvaluationResult.to_array"])

prop("C08", "Each Monte Carlo sample is evaluated under its own grid parameters",
     "For every batch of grid sections, each reported sample carries the section it belongs to and was computed while every "
     "swept parameter held the value of that section, with every simulation stage that a changed parameter can affect "
     "re-executed before evaluation. The number of samples per batch entry equals the product of the stage argument counts.",
     ["histories", "configurations"], "all batches (any order of sections), all dimensions with any first/last impacted stage",
     "tests run a toy object over tiny grids; stale parameters show only for particular consecutive sections.",
     ["hermespy/core/pymonte/actors.py", "hermespy/core/pymonte/grid.py"],
     [("MonteCarloActor.run / __run_batch / __execute_stages", "hermespy/core/pymonte/actors.py"), ("GridDimension.configure_point", "hermespy/core/pymonte/grid.py")],
     ["MonteCarloActor.run", "MonteCarloActor.fetch_results"])

prop("C09", "Sparse and dense signal models describe the same samples",
     "A signal held as sparse blocks and the same signal held densely are indistinguishable: reading, writing and slicing "
     "any region, appending samples or streams, scaling, power and energy give identical results, and samples outside the "
     "touched region never change. Blocks of a sparse signal stay sorted and disjoint after every operation.",
     ["inputs", "histories"], "all block layouts, all index expressions, all sequences of reads, writes and appends",
     "tests compare selected slices on a few layouts.",
     ["hermespy/core/signal_model.py"],
     [("SparseSignal.__getitem__/__setitem__", "hermespy/core/signal_model.py"), ("DenseSignal", "hermespy/core/signal_model.py")],
     ["Signal.__getitem__", "Signal.__setitem__", "Signal.append_samples", "Signal.to_dense"])

prop("C10", "Superimposing signals adds samples, sampling-rate aligned, and nothing else",
     "Superimposing a signal at equal sampling rate adds its samples, shifted by the carrier frequency difference, to the "
     "selected streams starting at the first sample and leaves all other samples and the added signal untouched. "
     "Converting to interleaved integers and back preserves the waveform up to quantisation.",
     ["inputs", "configurations"], "all sample values, stream selections, lengths and carrier offsets",
     "tests use few fixed tones.",
     ["hermespy/core/signal_model.py"],
     [("DenseSignal.superimpose / SparseSignal.superimpose", "hermespy/core/signal_model.py")],
     ["Signal.superimpose", "Signal.to_interleaved", "Signal.FromInterleaved"])

prop("C11", "Analog-to-digital conversion is a bounded, monotone quantiser",
     "With b quantisation bits the converter emits at most 2^b distinct amplitudes per real dimension, all within full "
     "scale, is monotone in its input, and errs by at most half a quantisation step inside its unclipped range. In-phase "
     "and quadrature parts and different samples do not influence each other beyond the gain control, whose adjustment "
     "maps the configured amplitude measure to the inverse backoff.",
     ["inputs", "configurations"], "all input amplitudes, bit counts, quantiser types and gain controls",
     "tests compare a coarse ramp for a few bit counts; the edges of the input range decide the number of levels.",
     ["hermespy/simulation/rf/blocks/ad.py"],
     [("ADC._quantize", "hermespy/simulation/rf/blocks/ad.py"), ("AutomaticGainControl.estimate_gain", "hermespy/simulation/rf/blocks/ad.py")],
     ["ADC.propagate"])

prop("C12", "Amplifier models never exceed saturation and keep the input phase",
     "For every input sample, every power amplifier model outputs an amplitude that does not exceed the model's "
     "saturation, is non-decreasing in the input amplitude for the compressive models, and maps zero to zero; phase is "
     "preserved except for models that define an amplitude-dependent phase. Samples are processed independently of each other.",
     ["inputs", "configurations"], "all complex input samples and model parameters",
     "tests check a couple of parameter sets on random samples.",
     ["hermespy/simulation/rf/blocks/amps.py"],
     [("PowerAmplifier models", "hermespy/simulation/rf/blocks/amps.py")],
     ["propagate"])

prop("C13", "Logarithmic and linear scales convert back and forth without loss",
     "Converting any positive power or amplitude to decibels and back, or any decibel value to linear and back, is the "
     "identity, conversion is strictly increasing, and a logarithmic number behaves in arithmetic as its linear value: "
     "every arithmetic result again agrees with its decibel representation.",
     ["inputs"], "all positive reals, all decibel values, all arithmetic operator combinations",
     "tests use a few constants per operator.",
     ["hermespy/core/logarithmic.py", "hermespy/tools/math.py"],
     [("Logarithmic", "hermespy/core/logarithmic.py"), ("db2lin / lin2db", "hermespy/tools/math.py")],
     ["Logarithmic", "LogarithmicSequence", "dB"])

prop("C14", "Rigid-body transformations form a group acting on positions and directions",
     "Rotations built from any roll-pitch-yaw or quaternion are orthonormal with determinant one; inverting a "
     "transformation undoes it on every position and direction, and composing transformations equals applying them in "
     "sequence. Chained coordinate frames report the global pose as the composition of all frames from the root, and "
     "changing any base is reflected in every linked frame.",
     ["inputs", "histories"], "all poses, all points, all chains and link/unlink histories of frames",
     "tests check random poses with tolerances and two-frame chains.",
     ["hermespy/core/transformation.py"],
     [("Transformation", "hermespy/core/transformation.py"), ("TransformableLink / TransformableBase", "hermespy/core/transformation.py")],
     ["Transformation.From_RPY", "Transformation.invert", "transform_position", "Transformable.forwards_transformation"])

prop("C15", "Random streams are reproducible and owned along the random-mother hierarchy",
     "Two hierarchies of random nodes configured with the same seeds produce identical random streams for identical call "
     "sequences. A node draws from its mother's stream, unless a seed was configured after the mother was, and from its own "
     "stream if it has no mother. Setting a seed resets the stream to the same state each time.",
     ["histories", "configurations"], "all node hierarchies, seeds and call sequences",
     "tests look at one or two nodes.",
     ["hermespy/core/random_node.py"],
     [("RandomNode", "hermespy/core/random_node.py")],
     ["RandomNode._rng", "RandomNode.seed", "RandomNode.random_mother"])

prop("C16", "Serialising and deserialising any component preserves its behaviour",
     "Storing a component and loading it again yields a component of the same type with the same configuration parameters, "
     "so that it produces the same outputs for the same inputs, for every valid configuration including optional "
     "parameters left unset or set to non-default values.",
     ["configurations", "histories"], "all serialisable components and all their valid configurations",
     "round-trip tests exercise one configuration per class, mostly defaults, and compare few attributes.",
     ["hermespy/core/factory.py", "hermespy/fec", "hermespy/modem", "hermespy/simulation", "hermespy/radar", "hermespy/channel", "hermespy/beamforming"],
     [("Serializable.serialize / Deserialize pairs", "hermespy/**/*.py"), ("HDFSerializationProcess", "hermespy/core/factory.py")],
     ["Factory.to_HDF", "Factory.from_HDF"])

prop("C17", "Error and throughput metrics count exactly the differing bits, blocks and frames",
     "For any transmitted and received bit streams the bit error rate is the share of differing positions, the block and "
     "frame error rates are the shares of blocks and frames containing at least one difference with missing frames counted as "
     "errors, all lie between zero and one, and are zero exactly when everything matches. Throughput equals the correctly "
     "received bits per second of transmitted frame time.",
     ["inputs"], "all bit streams, frame counts and block sizes, including unequal lengths",
     "tests use fixed small vectors.",
     ["hermespy/modem/evaluators.py"],
     [("BitErrorEvaluator / BlockErrorEvaluator / FrameErrorEvaluator / ThroughputEvaluator", "hermespy/modem/evaluators.py")],
     ["evaluate().artifact().to_scalar()"])

prop("C18", "Beamformers point where they are asked to",
     "For every antenna array, carrier frequency and direction, conventional transmit and receive weights are matched to "
     "the array response in the focused direction, the Capon beamformer is distortionless toward its direction, and null "
     "steering suppresses the configured null directions while keeping its focus. Probing over a list of directions equals "
     "processing each direction separately.",
     ["inputs", "configurations"], "all arrays, directions, carriers and received samples",
     "tests compare a few directions with a tolerance.",
     ["hermespy/beamforming/conventional.py", "hermespy/beamforming/capon.py", "hermespy/beamforming/nullsteeringbeamformer.py", "hermespy/beamforming/beamformer.py"],
     [("_encode / _decode", "hermespy/beamforming/*.py")],
     ["transmit", "receive", "probe"])

prop("C19", "Radar detection reports exactly the cube cells that satisfy its rule",
     "For every radar cube, threshold detection reports precisely the cells whose normalised power reaches the threshold, "
     "max detection reports precisely one cell of maximal power, and each reported point carries that cell's power and the "
     "position and velocity of its angle, velocity and range bin. Constant-false-alarm detection depends only on power ratios.",
     ["inputs", "configurations"], "all cube contents, shapes, bin axes and thresholds",
     "tests use cubes with a single planted target.",
     ["hermespy/radar/detection.py", "hermespy/radar/cube.py"],
     [("ThresholdDetector / MaxDetector / CFARDetector", "hermespy/radar/detection.py"), ("RadarCube", "hermespy/radar/cube.py")],
     ["RadarDetector.detect", "RadarPointCloud.points"])

prop("C20", "The operating characteristic is a monotone curve of empirical probabilities",
     "For every set of hypothesis observations the receiver operating characteristic consists of empirical false-alarm and "
     "detection probabilities between zero and one that are non-increasing in the threshold and computed from exactly the "
     "observations of the respective hypothesis.",
     ["inputs"], "all observation sets",
     "tests only check shapes and one sample.",
     ["hermespy/radar/evaluators.py"],
     [("ROCEvaluationResult", "hermespy/radar/evaluators.py")],
     ["ROCEvaluationResult.to_array"])

prop("C21", "Radio-frequency chains propagate each block once, after all of its inputs",
     "For every acyclic radio-frequency chain, each block is propagated exactly once per transmission or reception and only "
     "after all blocks feeding it, every connected port carries the streams of the port it is connected to, open ports carry "
     "the signals of the chain's inputs and outputs or silence, and invalid connections are rejected without changing the "
     "chain.",
     ["configurations", "histories"], "all chain topologies and construction orders",
     "tests use a few linear chains.",
     ["hermespy/simulation/rf/chain.py", "hermespy/simulation/rf/block.py"],
     [("RFChain", "hermespy/simulation/rf/chain.py")],
     ["RFChain.connect", "RFChain.transmit / receive"])

prop("C22", "Coupling and isolation models act as the configured linear maps",
     "Transmit and receive coupling apply the configured mutual coupling matrices sample by sample, and leakage between "
     "ports of a device is the configured matrix of leakage factors applied to the emitted signal: it is linear, leaks "
     "nothing under perfect isolation and keeps every stream's timing.",
     ["inputs", "configurations"], "all matrices, signals and port counts",
     "tests use tiny identity-like matrices.",
     ["hermespy/simulation/isolation/selective.py", "hermespy/simulation/isolation/specific.py", "hermespy/simulation/isolation/perfect.py", "hermespy/simulation/coupling"],
     [("Isolation.leak / Coupling.transmit / receive", "hermespy/simulation/isolation, hermespy/simulation/coupling")],
     ["leak", "transmit", "receive"])

prop("C23", "Noise levels and noise models produce the power they announce",
     "For every noise level the announced noise power follows from its definition (fixed power, thermal noise floor "
     "of the bandwidth, or ratio to a reference power), scales accordingly with its parameter, and adding realised noise "
     "changes samples only by a random term of exactly that power and is the identity for zero power.",
     ["inputs", "configurations"], "all powers, temperatures, bandwidths and signals",
     "tests check selected parameters statistically.",
     ["hermespy/simulation/rf/noise/level.py", "hermespy/simulation/rf/noise/model.py", "hermespy/simulation/modem/noise.py"],
     [("NoiseLevel.get_power", "hermespy/simulation/rf/noise/level.py"), ("NoiseRealization.add_to", "hermespy/simulation/rf/noise/model.py")],
     ["NoiseLevel.get_power", "NoiseRealization.add_to"])

prop("C24", "Chirp FSK maps bits to tones one-to-one and recovers them",
     "For every modulation order and every bit vector, chirp FSK mapping followed by modulation, noiseless reception and "
     "unmapping returns the bits, every symbol index stays within the alphabet, and frame length, duration and energy "
     "match the announced values.",
     ["inputs", "configurations"], "all modulation orders, bit vectors, chirp and pilot counts, oversampling factors",
     "tests use one order and one random stream.",
     ["hermespy/modem/waveform_chirp_fsk.py"],
     [("ChirpFSKWaveform.map / unmap / modulate / demodulate", "hermespy/modem/waveform_chirp_fsk.py")],
     ["map", "unmap", "place", "pick", "samples_per_frame"])

prop("C25", "Channels are linear, energy-consistent and reciprocal",
     "For every channel realisation, propagating a scaled sum of signals equals the scaled sum of propagated signals, "
     "swapping transmitter and receiver yields the transposed response, the output starts no earlier than its input, "
     "and ideal channels with unit gain transfer the samples unchanged while a gain scales power by exactly that gain.",
     ["inputs", "configurations", "histories"], "all signals, device poses, carriers, gains and realisations",
     "tests check selected realisations and only the expected scale.",
     ["hermespy/channel/channel.py", "hermespy/channel/ideal.py", "hermespy/channel/delay", "hermespy/channel/radar", "hermespy/channel/fading/fading.py", "hermespy/core/state.py", "hermespy/core/channel.py"],
     [("ChannelSample.propagate", "hermespy/channel/channel.py"), ("_propagate implementations", "hermespy/channel/**")],
     ["Channel.propagate", "ChannelSample.state"])

prop("C26", "Event hooks notify each registered listener exactly once per event",
     "After any sequence of registrations and removals, an event is delivered exactly once to every listener currently "
     "registered, never to a removed one, and removing a listener twice is harmless.",
     ["histories"], "all registration/removal/notification sequences",
     "tests use one listener.",
     ["hermespy/core/hooks.py"],
     [("Hookable / Hook", "hermespy/core/hooks.py")],
     ["Hookable.add_callback", "Hookable.notify", "Hook.remove"])

if __name__ == "__main__":
    out = pathlib.Path(__file__).resolve().parent.parent / "properties.jsonl"
    out.write_text("".join(json.dumps(p, ensure_ascii=False) + "\n" for p in P))
    print(len(P), "properties")
