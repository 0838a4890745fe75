#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run: tools/props.py; rewrites ../properties.jsonl)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     **({"observe_at": observe} if observe else {}), hook_needed=None)))

prop("C01", "Audio signal flows compute exactly the composition their graph describes",
 "For every valid, acyclic graph of components (nested to any depth, with channels permuted, duplicated, partially connected or passed straight through), each processing period delivers on every external output channel exactly the value obtained by following the declared audio connections from the external inputs through the components. This holds for every block, every declaration or memory order of components and ports, and every external buffer stride; no channel is delayed by a block, dropped, swapped or overwritten by another.",
 ["programs","configurations","histories"], "all bounded component graphs x connection patterns x declaration orders x block sequences",
 "Tests render a handful of hand-written flows; buffer allocation and scheduling depend on graph shape and on object addresses, which no fixed test can cover.",
 ["src/librrl/audio_signal_flow.cpp","src/librrl/audio_connection_map.cpp","src/librrl/scheduling_graph.cpp","src/librrl/communication_area.cpp","src/librrl/signal_routing_internal.cpp"],
 [("flattening of hierarchical audio connections","librrl/audio_connection_map.cpp"),("buffer allocation and inserted routing","librrl/audio_signal_flow.cpp"),("topological schedule","librrl/scheduling_graph.cpp")],
 ["AudioSignalFlow::process outputs"])
prop("C02", "Parameters reach every connected receiver in the period they are sent",
 "In every valid graph, a parameter value sent by a component in a period is seen in that same period by every receiver connected to it, directly or through any number of enclosing levels or from/to the external parameter interface, in order and without loss or duplication. Components are executed so that producers of audio or parameters run before their consumers, whatever the order of declaration.",
 ["programs","configurations","histories"], "all bounded parameter graphs x protocols x fan-out x send patterns per block",
 "Tests use one or two parameter connections; scheduling across levels and fan-out combinations are unbounded.",
 ["src/librrl/parameter_connection_map.cpp","src/librrl/parameter_connection_graph.cpp","src/librrl/scheduling_graph.cpp","src/librrl/audio_signal_flow.cpp"],
 [("parameter connection flattening","librrl/parameter_connection_map.cpp"),("protocol instantiation per source port","librrl/audio_signal_flow.cpp")])
prop("C03", "Malformed signal flows are rejected and well-formed ones accepted",
 "Constructing a runtime flow fails with an exception if and only if the graph is malformed: an audio channel that has to be fed has no source or more than one, a source channel is left unused, a parameter input does not have exactly one source, a message queue does not have exactly one receiver, connected ports disagree in sample type, parameter type, configuration or protocol, or a component or output is fed from a closed loop of dependencies. Connection calls naming nonexisting components, ports or channels, or connecting ports in the wrong direction, are rejected with an exception, and every graph free of these faults is accepted.",
 ["programs","configurations"], "all bounded graphs obtained by adding, dropping, duplicating or mistyping connections",
 "Tests contain a few accepted graphs and almost no rejected ones.",
 ["src/librrl/integrity_checking.cpp","src/librrl/audio_connection_map.cpp","src/librrl/parameter_connection_map.cpp","src/libvisr/composite_component.cpp","src/libvisr/impl/composite_component_implementation.cpp"],
 [("integrity checks","librrl/integrity_checking.cpp"),("cycle detection","librrl/scheduling_graph.cpp")])
prop("C04", "Parameter protocols deliver values exactly as their contract says",
 "For every sequence of operations, a message queue delivers each enqueued message exactly once and in order, a shared-data connection shows every write to all receivers at once, and a double-buffered connection shows receivers exactly the value published by the last swap, raising each receiver's changed flag independently. Connecting and disconnecting ports obeys the declared cardinality and leaves no dangling access.",
 ["histories"], "all operation sequences up to a depth on each protocol with up to three receivers",
 "Tests exercise one short sequence per protocol.",
 ["src/libpml/message_queue_protocol.cpp","src/libpml/message_queue_protocol.hpp","src/libpml/double_buffering_protocol.cpp","src/libpml/double_buffering_protocol.hpp","src/libpml/shared_data_protocol.cpp","src/libpml/shared_data_protocol.hpp"],
 [("queue push/pop","libpml/message_queue_protocol.hpp"),("swapBuffers and changed flags","libpml/double_buffering_protocol.cpp"),("connect/disconnect","libpml/*_protocol.cpp")])

prop("C05", "Failing components and timing queries never corrupt later blocks",
 "Whatever sequence of successful and failing processing periods occurs, time queries made by a component during a period report exactly the number of periods and samples successfully processed so far (a failed period is not counted), an error raised by a component surfaces to the caller of that period, and later periods keep computing what the graph describes. Concurrent parameter exchange guarded by the flow's lock never interleaves with a running period.",
 ["histories","fault_sequences","schedules"], "all patterns of failing components per block, all interleavings of a control thread and the rendering thread",
 "Tests never make a component fail and are single threaded.",
 ["src/librrl/audio_signal_flow.cpp","src/libvisr/time.cpp","src/libvisr/impl/time_implementation.cpp"],
 [("period counter","librrl/audio_signal_flow.cpp"),("parameter exchange lock","librrl/audio_signal_flow.cpp")])
prop("C06", "UDP components pass messages exactly once, in order and unmodified",
 "Every datagram the receiver component picks up becomes exactly one message on its output queue, with identical bytes and in arrival order, whatever the timing of the network relative to the processing periods; every message queued at the sender component leaves as exactly one datagram with identical bytes and in order. This holds in the synchronous and asynchronous modes of operation, the two threads of the asynchronous mode never access the same data without synchronisation, and shutting down at any time never blocks or crashes (messages still pending then may be lost).",
 ["schedules","inputs","histories"], "all interleavings of datagram arrival with processing periods, all bounded message contents including empty and binary ones",
 "There is no test with traffic; the receiving thread makes outcomes schedule dependent.",
 ["src/librcl/udp_receiver.cpp","src/librcl/udp_sender.cpp"],
 [("internal message queue guarded by a mutex","librcl/udp_receiver.cpp"),("asynchronous send chain","librcl/udp_sender.cpp")])
prop("C07", "Delay lines return exactly the sample written the requested time ago",
 "For every sequence of writes and reads, a circular buffer or multichannel delay line returns on every channel the sample that was written the requested number of samples ago (zero before the start of time), with nearest-sample and Lagrange interpolation producing the defined weighted sum for fractional delays, and with the requested linearly interpolated gain applied. This holds for all block sizes, buffer wrap-arounds and delays up to and including the configured maximum; requests outside the capacity are rejected rather than returning other samples.",
 ["inputs","histories","configurations"], "all block sizes, capacities, delays and read/write histories within the bounds",
 "Tests play one long signal with a fixed configuration.",
 ["src/librbbl/circular_buffer.hpp","src/librbbl/multichannel_delay_line.cpp","src/librbbl/fractional_delay_base.hpp","src/librbbl/lagrange_interpolator.cpp","src/libefl/lagrange_coefficient_calculator.cpp"],
 [("wrap-around copy","librbbl/circular_buffer.hpp"),("interpolator selection","librbbl/fractional_delay_factory.cpp")])
prop("C08", "Delay components change delay and gain smoothly from the current value",
 "For every history of delay and gain settings, including changes that arrive while an earlier transition is still running, the delay components produce in each block the input delayed and scaled by values that start at the value in effect, move linearly and reach the new setting after the configured transition time, without any jump. In steady state each channel (or matrix crosspoint) carries exactly the configured delay and gain, and contributions to one output add up.",
 ["histories","inputs"], "all bounded sequences of settings and blocks for each transition length and control mode",
 "Tests check one transition that is never interrupted.",
 ["src/librcl/delay_vector.cpp","src/librcl/delay_matrix.cpp","src/libsignalflows/delay_vector.cpp"],
 [("transition restart from the interpolated values","librcl/delay_vector.cpp, librcl/delay_matrix.cpp")])
prop("C09", "Gain changes ramp linearly from the current gain without jumps",
 "For every history of gain settings and processing blocks, gain matrices, gain vectors and faders apply to each signal a gain that starts from the value in effect when the change arrives, moves linearly over the configured interpolation time and then stays exactly at the target, so that no two consecutive samples see a gain step larger than the ramp slope. With no interpolation the new gain applies from the first sample of the next block; outputs of a matrix (and of an adder) are the sum over inputs of gain times signal. Settings of wrong dimensions are rejected without effect. (The gain matrix component with a control input treats the value of that input as a new setting in every period.)",
 ["histories","inputs"], "all bounded sequences of (set gains | process block) for each interpolation length and matrix size",
 "Tests apply a single gain change.",
 ["src/librbbl/gain_matrix.cpp","src/librbbl/gain_fader.cpp","src/librcl/gain_matrix.cpp","src/librcl/gain_vector.cpp","src/librcl/add.cpp","src/libsignalflows/gain_matrix.cpp"],
 [("ramp bookkeeping","librbbl/gain_matrix.cpp"),("block-wise ramp","librbbl/gain_fader.cpp")])
prop("C10", "Partitioned convolution equals direct convolution for every edit history",
 "For all block sizes, filter lengths and sequences of filter and routing changes, each output of the multichannel convolver is the sum over its active routings of gain times the exact linear convolution of the complete input history with the routed filter, a new filter applying from the next block. Removing a routing reports whether it existed, and rejected edits (indices or lengths out of range, too many routings) throw and leave the convolver unchanged; in the FIR matrix component an invalid control message fails only the period that handles it. The block FIR filter likewise yields the direct convolution of each channel with its filter, at all supported upsampling factors.",
 ["histories","configurations","inputs"], "all bounded edit/process histories for block sizes, filter lengths, channel counts",
 "Tests use a few fixed routings and never edit them while running.",
 ["src/librbbl/multichannel_convolver_uniform.cpp","src/librbbl/core_convolver_uniform.cpp","src/librcl/fir_filter_matrix.cpp","src/librbbl/fft_wrapper_factory.cpp","src/librbbl/fir.cpp"],
 [("overlap-save partition ring","librbbl/core_convolver_uniform.cpp"),("routing table","librbbl/multichannel_convolver_uniform.cpp")])
prop("C11", "Crossfading and interpolating convolvers move between filters without artefacts",
 "For every history of filter exchanges and routing edits, the crossfading convolver outputs exactly the direct convolution with the current filter outside a transition and, during one, the ramp-weighted mix of old and new filter outputs over the configured number of samples. An exchange that starts a transition fades from the filter most recently set (also if its own transition has not finished); one that does not start a transition replaces the target filter, and a running crossfade continues towards it. The interpolating convolver behaves like a crossfading convolver whose filters are the weighted sums of the selected stored filters at the time of selection. Invalid edits (filter, routing or interpolant indices or lengths out of range, too many routings) throw and change nothing, and an invalid control message fails only the period that handles it.",
 ["histories","configurations"], "all bounded exchange/process histories",
 "Tests perform one exchange.",
 ["src/librbbl/crossfading_convolver_uniform.cpp","src/librbbl/interpolating_convolver_uniform.cpp","src/librcl/crossfading_fir_filter_matrix.cpp","src/librcl/interpolating_fir_filter_matrix.cpp"],
 [("two filter sets and transition bookkeeping","librbbl/crossfading_convolver_uniform.cpp")])
prop("C12", "Object-to-channel allocation is stable, exclusive and work-conserving",
 "For every history of object sets, an object keeps its channel as long as it stays in the set, no two objects share a channel, every object of the set has a channel below the configured maximum, and the reported object-to-channel map contains exactly the objects of the current set. A set with more objects than channels is rejected with an exception and leaves the allocation unchanged; channels released by objects that disappear are reused.",
 ["histories"], "all sequences of object sets over a small id universe",
 "Tests use one sequence.",
 ["src/librbbl/object_channel_allocator.cpp"],
 [("free list and object map","librbbl/object_channel_allocator.cpp")])
prop("C13", "Textual index, float and routing lists expand to exactly what they denote",
 "Parsing an index sequence, float sequence or routing list yields exactly the values the notation denotes (including ranges with positive or negative steps and broadcast of single entries), and every text outside the grammar or with mismatched list lengths is rejected (with a standard exception; signal routing texts by a false return value) without changing an existing list. Building, editing and removing routing entries keeps at most one entry per target and never affects other entries.",
 ["inputs","histories"], "all strings up to a length over the grammar's alphabet, all bounded edit sequences",
 "Tests parse a few valid strings.",
 ["src/librbbl/index_sequence.cpp","src/librbbl/float_sequence.cpp","src/librbbl/filter_routing.cpp","src/librbbl/sparse_gain_routing.cpp","src/libpml/signal_routing_parameter.cpp"],
 [("boost::spirit grammars","librbbl/index_sequence.cpp, librbbl/float_sequence.cpp")])
prop("C14", "Runtime signal routing connects exactly the requested channels",
 "After every history of routing updates, each output channel of a routing component carries the input channel it was last connected to and is silent if unconnected, and sparse gain routing sums exactly its active entries with gain transitions that start from the gain in effect. An update naming channels that do not exist is reported (with an exception when made by a call) and leaves the previous routing in force.",
 ["histories","inputs"], "all bounded sequences of routing messages and blocks",
 "Tests use static routings.",
 ["src/librcl/signal_routing.cpp","src/librcl/sparse_gain_matrix.cpp","src/libpml/signal_routing_parameter.cpp"],
 [("routing table update","librcl/signal_routing.cpp")])
prop("C15", "Audio objects survive encoding to JSON and decoding unchanged",
 "For every object type and every combination of its attributes, writing the object to JSON and parsing the result yields an object with the same type, identifiers, channels, level, priority, group, equaliser and type-specific attributes, and copies and clones are equal to their original and independent of it. Decoding a description does not depend on what the scene contained before: absent optional attributes take their defaults, and a description lacking a mandatory attribute or with contradictory or malformed ones is rejected with an exception and leaves the objects of the scene as they were.",
 ["inputs"], "all object types x attribute values from a boundary set",
 "Tests parse example scenes but do not compare round trips.",
 ["src/libobjectmodel/object_parser.cpp","src/libobjectmodel/object_vector_parser.cpp","src/libobjectmodel/point_source_parser.cpp","src/libobjectmodel/point_source_with_reverb_parser.cpp","src/libobjectmodel/channel_object_parser.cpp"],
 [("per-type parse/write pairs","libobjectmodel/*_parser.cpp")])
prop("C16", "The decoded scene is the accumulation of all object messages received",
 "After any sequence of scene messages, spread over any number of processing periods, the scene visible to receivers contains for every object the attributes of its most recent update and no object that was never sent, and stays stable while no message arrives. A malformed message is reported and leaves objects not mentioned in it, and objects whose description is malformed, as they were; it never stops later messages from being applied.",
 ["histories","inputs"], "all bounded sequences of update/malformed messages distributed over blocks",
 "Tests decode single messages.",
 ["src/librcl/scene_decoder.cpp","src/librcl/scene_encoder.cpp","src/libobjectmodel/object_vector.cpp","src/libobjectmodel/object_vector_parser.cpp"],
 [("double-buffered object vector","librcl/scene_decoder.cpp"),("per-object update","libobjectmodel/object_vector_parser.cpp")])
prop("C17", "Amplitude panning gains are non-negative, normalised and point at the source",
 "For every loudspeaker layout covered by a valid triangulation and every source direction, VBAP yields finite, non-negative loudspeaker gains of unit power that are non-zero only on one simplex whose gain-weighted direction vectors point at the source, and imaginary loudspeakers never appear in the regular outputs except through their documented re-routing. Plane-wave and listener-position variants give the same result as the equivalent direction seen from the listener. The ambisonic (AllRAD) decoder is the product of the regular decoder with those gains, for the current listener position. Compensated amplitude panning reproduces the interaural cue of the source for the current head orientation within its gain limit.",
 ["inputs","configurations"], "a dense exhaustive direction grid x shipped and enumerated layouts x listener positions",
 "Tests evaluate few directions without checking the panning law.",
 ["src/libpanning/VBAP.cpp","src/libpanning/LoudspeakerArray.cpp","src/libpanning/CAP.cpp","src/libpanning/AllRAD.cpp"],
 [("triplet inversion and selection","libpanning/VBAP.cpp")])
prop("C18", "Loudspeaker array descriptions are loaded exactly or rejected",
 "Loading an array description yields exactly the loudspeakers, channel numbers, subwoofers, equalisers, delays, gains, triplets and virtual-speaker re-routings it contains, independent of the order of the elements in the file. A description with duplicate or missing identifiers or channels, references to undeclared loudspeakers, re-routing or subwoofer feeds from loudspeakers that are not real ones, references to undefined equalisers, missing or malformed attributes is rejected with an exception. Loading into an array that already holds a configuration, loading after a failed attempt, and assigning arrays give exactly the same result as a fresh load.",
 ["inputs","configurations"], "all bounded array descriptions, element orders, all single-element mutations of them, and histories of loads and assignments",
 "Tests load shipped files only.",
 ["src/libpanning/LoudspeakerArray.cpp","src/libpml/array_configuration.cpp"],
 [("XML reader and consistency checks","libpanning/LoudspeakerArray.cpp")])
prop("C19", "Scene metadata sets gains of exactly the right objects and loudspeakers",
 "For every scene and every history of scenes and listener positions, the panning, gain/EQ, diffuse, channel-routing, HOA and CAP calculators set the gains, equalisers and routings of exactly the signal channels of the objects present, according to the objects' level, position, diffuseness, labels and equalisers and the current listener position, and leave every other channel at its neutral value, whatever was processed before. Invalid parts of a scene (signal channels or loudspeaker labels that do not exist, HOA orders or numbers of EQ sections that exceed the configuration) have no effect on other objects and do not terminate the processing.",
 ["histories","inputs"], "all bounded sequences of scenes over a small universe of objects",
 "Tests use one static scene.",
 ["src/librcl/panning_calculator.cpp","src/librcl/object_gain_eq_calculator.cpp","src/librcl/diffusion_gain_calculator.cpp","src/librcl/channel_object_routing_calculator.cpp","src/librcl/hoa_allrad_gain_calculator.cpp","src/librcl/cap_gain_calculator.cpp"],
 [("per-object loops","librcl/panning_calculator.cpp, librcl/object_gain_eq_calculator.cpp")])
prop("C20", "Time-frequency analysis followed by synthesis reconstructs the signal",
 "For every admissible combination of block length, hop size, window and transform size, the analysis frames are the windowed discrete Fourier transforms of the signal at the hop positions, and the synthesis output is the overlap-add of the inverse transforms of the frames, for any number of hops per block and any number of blocks and channels.",
 ["configurations","histories"], "all admissible bounded configurations x block histories",
 "Tests use one configuration.",
 ["src/librcl/time_frequency_transform.cpp","src/librcl/time_frequency_inverse_transform.cpp"],
 [("frame extraction","librcl/time_frequency_transform.cpp"),("overlap-add","librcl/time_frequency_inverse_transform.cpp")])
prop("C21", "IIR filters realise their difference equation for every coefficient history",
 "For every sequence of coefficient updates and blocks, each channel's output equals the cascade of second-order difference equations with the coefficients in force (earlier samples keep the weights of the coefficients in force when they arrived), carrying its state across blocks; channels never influence each other, and filters without given coefficients are flat. Updates of wrong dimensions or for nonexistent channels or sections are rejected without effect, an invalid control message failing only the period that handles it. Biquads, lists and matrices of biquads and parametric filter descriptions convert to JSON and (except matrices) XML and back without loss or confusion of sections and channels, incomplete or ragged texts raise an exception, and parametric filters yield the coefficients of the audio EQ cookbook for their type, frequency, quality and gain in dB.",
 ["histories","inputs"], "all bounded coefficient-update/process histories, channel and section counts",
 "Tests run a single filter once.",
 ["src/librcl/biquad_iir_filter.cpp","src/librbbl/biquad_coefficient.cpp","src/librbbl/parametric_iir_coefficient.cpp","src/librbbl/parametric_iir_coefficient_calculator.cpp","src/libefl/filter_functions.cpp"],
 [("biquad state and coefficient matrix","librcl/biquad_iir_filter.cpp")])
prop("C22", "Vector primitives match their scalar definition for all lengths and variants",
 "Every elementary vector operation produces, for every length, element type, alignment, stride and selected processor variant, the element-wise result of its definition (bit-exactly where no rounding freedom exists), in place or out of place as documented, and never reads or writes outside the given range. Wrong alignment or arguments are reported through the error code.",
 ["inputs","configurations"], "all functions x element types x lengths 0..N x alignment offsets x processor variants",
 "Tests call a few functions at one or two lengths.",
 ["src/libefl/vector_functions.cpp","src/libefl/reference/vector_functions_impl.hpp","src/libefl/intel_x86_64/vector_multiply_add.cpp","src/libefl/intel_x86_64/vector_ramp_scaling.cpp","src/libefl/vector_conversions.cpp"],
 [("function dispatch","libefl/vector_functions.cpp"),("SIMD kernels and tails","libefl/intel_x86_64")])
prop("C23", "Tracking data and listener pose are decoded to the geometry they describe",
 "Quaternions, positions and listener poses obey the algebra of rotations: construction from yaw/pitch/roll or axis and angle, normalisation, composition, inversion, angular distance, interpolation, rotating a vector and conversion back to yaw/pitch/roll all describe the same rotation, for every pose including straight up and down. For every sequence of tracker messages, the listener position decoder outputs, of all messages of one period, the latest pose of the smallest face id, transformed into the loudspeaker coordinate system, and skips malformed messages. Listener compensation yields, for every regular loudspeaker at distance r from the listener, the gain r/rmax and the delay (rmax-r)/c, whatever virtual loudspeakers the array contains.",
 ["inputs","histories"], "exhaustive pose grids and message sequences",
 "Tests check a few values.",
 ["src/librbbl/quaternion.hpp","src/librbbl/position_3d.cpp","src/libpml/listener_position.cpp","src/librcl/position_decoder.cpp","src/librcl/listener_compensation.cpp"],
 [("quaternion algebra","librbbl/quaternion.hpp"),("message decoding","librcl/position_decoder.cpp")])
prop("C24", "Complete renderers are a linear, time-consistent function of their scene",
 "For every loudspeaker configuration, renderer setting and history of scenes and listener positions, a complete object renderer delivers on each loudspeaker's output channel the sum over all objects of the object signal, scaled by its level, filtered by its equaliser and weighted with its panning gain (both bands with frequency-dependent panning), plus the decorrelated diffuse part, compensated for the tracked listener, equalised, delayed and scaled as configured; subwoofers carry the weighted sum of their loudspeakers, and all other outputs are silent. Objects that leave the scene or use nonexistent channels contribute nothing. New levels are reached linearly within the interpolation period, and panning gains move in every period by the fraction period/interpolation of the remaining distance. Renderers with network interfaces apply the scenes and listener positions they receive. Configurations whose output channels do not exist or are used twice are rejected.",
 ["histories","inputs"], "all bounded scenes/updates on small arrays, object subsets for superposition",
 "Tests only construct renderers.",
 ["src/libsignalflows/baseline_renderer.cpp","src/libsignalflows/bunch_renderer.cpp","src/libsignalflows/core_renderer.cpp"],
 [("renderer composition","libsignalflows/core_renderer.cpp")])
prop("C25", "Channel ranges and lists denote exactly the documented index sequences",
 "A channel range from start to end with a positive or negative step enumerates exactly the indices of the corresponding half-open arithmetic progression, and lists built from ranges, values or both concatenate them in order; invalid ranges are rejected. Connecting ports with such lists connects the i-th entry of one side to the i-th entry of the other.",
 ["inputs"], "all ranges with bounds and steps in a window, all bounded combinations",
 "Tests construct a few.",
 ["src/libvisr/channel_list.cpp","src/libvisr/channel_list.hpp"],
 [("range expansion","libvisr/channel_list.cpp")])
prop("C26", "Matrix, vector and indexed parameters are parsed and copied exactly",
 "Text descriptions of matrices and vectors (numbers separated by white space or commas, rows by line breaks or semicolons, comments after %) and audio files yield exactly the numbers and shape they contain or raise an exception for ragged or malformed input, and every parameter type clones, copies and assigns to an independent, equal value. Resizing, filling, copying, swapping, moving and row access of the underlying matrices and vectors keep contents, shape, stride and alignment consistent, and operations that do not fit (dimensions, alignment, indices) throw without effect.",
 ["inputs","histories"], "all bounded texts, shapes, alignments and operation sequences",
 "Tests use a few examples.",
 ["src/libpml/matrix_parameter.cpp","src/libpml/vector_parameter.cpp","src/libpml/string_parameter.cpp","src/libpml/indexed_value_parameter.cpp","src/libefl/basic_matrix.hpp","src/libefl/basic_vector.hpp","src/libefl/aligned_array.hpp"],
 [("text parser","libpml/matrix_parameter.cpp"), ("containers","libefl/basic_matrix.hpp")])
prop("C27", "Host block-size adaptation passes every sample exactly once and in order",
 "When a host delivers audio in blocks of its own, possibly varying, size, the buffering adaptor (FlexibleBufferWrapper) passes every sample through the renderer exactly once, in order and on the right channel, with a constant delay of one rendering period, for every combination of rendering period and host block sizes, every number of channels and for planar, interleaved or otherwise strided sample layouts. Samples outside the host's output range are never written.",
 ["configurations","histories"], "all sequences of host block sizes and rendering periods in a window x memory layouts",
 "There is no test with unequal sizes.",
 ["src/librrl/flexible_buffer_wrapper.cpp","src/librrl/flexible_buffer_wrapper.hpp"],
 [("intermediate buffers","librrl/flexible_buffer_wrapper.cpp")])
prop("C28", "Reverberant objects are rendered from their own parameters on a stable channel",
 "For every history of scenes with reverberant objects, each such object keeps a dedicated reverberation channel while present; each of its discrete reflections appears with its own delay, level, filters and panning gains, its late reverberation is the sum over the frequency bands of that channel's noise shaped by the object's onset delay, level, attack time and decay, distributed over all loudspeakers through their decorrelation filters; new late parameters take effect exactly once and in order, within the permitted number of updates per period; other objects and channels without an object contribute nothing. Scenes that exceed the configured numbers of objects or reflections are rejected without affecting later scenes.",
 ["histories"], "all bounded scene sequences",
 "Tests only construct the renderer.",
 ["src/libreverbobject/reverb_parameter_calculator.cpp","src/libreverbobject/late_reverb_filter_calculator.cpp","src/libreverbobject/reverb_object_renderer.cpp"],
 [("object channel allocation","libreverbobject/reverb_parameter_calculator.cpp")])
prop("C29", "Timed panning gain transitions run exactly between the requested samples",
 "For every sequence of panning matrix messages, the panning gain matrix (libpanningdsp) applies to each object and loudspeaker, at every sample, the gain prescribed by its documented transition rules: a transition begins exactly at its start time, interpolates linearly from the gain in effect at that instant and reaches its target after exactly its duration (at once if that is zero) independently of period boundaries; a message replaces an object's stored future transition, objects marked inactive and all other objects are unaffected, the present transition continues until a stored one actually starts, and start times in the past are reported and ignored without affecting other objects or later periods. Panning matrix parameters keep all values and their shape when copied, cloned and assigned, independently of their source.",
 ["inputs","histories"], "all bounded sequences of transition messages",
 "Only a Python test with a handful of uninterrupted transitions exists.",
 ["src/libpanningdsp/panning_gain_matrix.cpp","src/libpanningdsp/panning_matrix_parameter.cpp"],
 [("transition state per object","libpanningdsp/panning_gain_matrix.cpp")])
prop("C30", "Every valid OSC message yields exactly one control value, in order",
"For every sequence of datagrams received by the OSC decoder for scalar control values (rcl::ScalarOscDecoder), the output carries, in the order of the messages in the datagrams (single messages or bundles), exactly one value per message whose first argument has the type of the decoder (boolean, 32-bit integer, non-negative integer, float, double), with exactly the transmitted value; messages with a missing or different argument, malformed or truncated datagrams and negative values for unsigned decoders produce no value and do not affect any message before or after them; unsupported type names are rejected.",
["inputs","histories"], "all bounded sequences of datagrams",
"No test exercises the component.",
["src/librcl/scalar_osc_decoder.cpp"],
[("OSC message decoding","librcl/scalar_osc_decoder.cpp")])
prop("C31", "Options and filter files of applications are taken exactly or rejected",
"For every command line and option file, the option parser shared by the applications (libapputilities) yields exactly the values given - long and short form, quoted values, switches, values on the command line taking precedence over those in an option file - and reports unknown, repeated, incomplete or ill-typed options and missing or faulty option files as a parse failure (never as an uncaught exception); options not given are reported as absent. For every list of filter files, start indices and limits, the matrix convolver application loads each channel of each file into exactly the filter slot that the start indices (or consecutive numbering) assign, padded with zeros to the requested size, and rejects overlapping files, files exceeding the number or length of the filters, missing files and mismatched start indices.",
["inputs"], "all bounded combinations of files and limits, all bounded option sequences",
"No test exercises the application utilities.",
["src/libapputilities/options.cpp","src/libapputilities/options.hpp","src/apps/matrix_convolver/init_filter_matrix.cpp","src/apps/matrix_convolver/options.cpp"],
[("option parsing","libapputilities/options.cpp"),("filter loading","apps/matrix_convolver/init_filter_matrix.cpp")])
prop("C32", "The Python interface computes exact results and never touches foreign memory",
"For every NumPy array passed to the Python interface - of any element type, dimension, shape, stride (sliced, reversed, transposed, offset, packed in records) and writability - signal flows, buffer wrappers, convolvers, parameters, containers, vector functions, filters and audio ports compute exactly the result for the logical elements of the array, or raise an exception without any effect; results are never silently discarded, inputs are never modified, and no element outside the arrays is read or written. Components, composites and ports written in Python exchange signals and parameters exactly as their C++ counterparts, also if they are destroyed in any order. Objects, parameters, lists, matrices and coefficients keep exactly the values assigned to them, through copies, iteration, conversion to and from text, and element access; indices, sizes and entries that do not exist are rejected with an exception, and iterators, views and references stay valid although the Python variable of their container is gone.",
["inputs","histories"], "all bounded combinations of array layouts, types, shapes and sequences of operations",
"The tests call each function with one contiguous array, most bindings not at all.",
["src/python/rrl/audio_signal_flow.cpp","src/python/rrl/flexible_buffer_wrapper.cpp","src/python/visr/audio_port.cpp","src/python/visr/composite_component.cpp","src/python/visr/component.cpp","src/python/efl/basic_vector.cpp","src/python/efl/basic_matrix.cpp","src/python/efl/vector_functions.cpp","src/python/efl/filter_functions.cpp","src/python/rbbl/multichannel_convolver_uniform.cpp","src/python/rbbl/biquad_coefficient.cpp","src/python/rbbl/filter_routing.cpp","src/python/pml/time_frequency_parameter.cpp","src/python/pml/matrix_parameter.cpp","src/python/objectmodel/object_vector.cpp","src/python/rcl/delay_vector.cpp","src/python/rcl/delay_matrix.cpp","src/python/rcl/gain_matrix.cpp","src/python/rcl/fir_filter_matrix.cpp","src/python/rcl/signal_routing.cpp"],
[("Python signal flow interface","python/rrl/audio_signal_flow.cpp"),("Python array conversions","python/efl/vector_functions.cpp"),("Python containers","python/efl/basic_vector.cpp")])
prop("C33", "Binaural renderers place every source where the tracked head perceives it",
"For every history of scenes, levels and head orientations (yaw, pitch and roll, tracked, initial or static), the Binaural Synthesis Toolkit renders every object and virtual loudspeaker with exactly the filters, interpolation weights, delays and gains that belong to its direction relative to the head: the source direction is rotated by the inverse head rotation, for dynamic HRIRs, virtual loudspeakers and HOA sound fields alike; nearest-neighbour selection uses the closest measured direction, interpolation the enclosing triplet (pair) with normalised barycentric weights, for both ears and all objects, with interpolated filters or an interpolating convolver alike. HOA encoding evaluates orthonormal real spherical harmonics of the direction of point sources and plane waves, rotation matrices of all orders are orthogonal and agree with rotating the direction, and decoding applies the given filters. The impulse responses of the complete renderers from scene and orientation to both ears follow from these, absent objects are silent, and objects of other types or on channels out of range have no effect.",
["inputs","histories"], "all bounded histories of scenes and head orientations for all configurations of the components",
"The toolkit is written in Python and has no tests; its errors appear only for combined rotations, particular options or changes during runtime.",
["src/python/packages/visr_bst/controllers/dynamic_hrir_controller.py","src/python/packages/visr_bst/controllers/virtual_loudspeaker_controller.py","src/python/packages/visr_bst/renderers/dynamic_hrir_renderer.py","src/python/packages/visr_bst/renderers/virtual_loudspeaker_renderer.py","src/python/packages/visr_bst/renderers/hoa_binaural_renderer.py","src/python/packages/visr_bst/renderers/hoa_object_to_binaural_renderer.py","src/python/packages/visr_bst/hoa_components/hoa_object_encoder.py","src/python/packages/visr_bst/hoa_components/hoa_coefficient_rotation.py","src/python/packages/visr_bst/hoa_components/hoa_rotation_matrix_calculator.py","src/python/packages/visr_bst/util/rotation_functions.py","src/python/packages/visr_bst/util/real_spherical_harmonics.py","src/python/packages/visr_bst/util/spherical_harmonics_rotation.py"],
[("Binaural Synthesis Toolkit","python/packages/visr_bst"),("HOA rotation","python/packages/visr_bst/hoa_components")])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
