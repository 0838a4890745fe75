"""Registry of checks: property -> harness programs, bounds and counting rule (used in the evidence files)."""
CHECKS = {}
def check(prop, harness, bounds, rule, assumptions=(), budget=None, level_note=None, technique=None):
    CHECKS[prop] = dict(harness=harness, bounds=bounds, rule=rule, assumptions=list(assumptions), budget=budget or {},
                        level_note=level_note or "Exhaustive within the stated bounds on the real code; nothing is claimed beyond them.",
                        technique=technique or "bounded exhaustive exploration of the real code against an explicit reference model")

check("C04", ["C04"],
      "queue: all sequences of <=5 (thorough 6) of 13 operations, 2 input and 2 output ports; double buffering: <=6/4 (7/5) operations with 1/2-3 receivers; shared data: <=5 (6) operations; payloads int, string, vector, matrix; created directly and via the factory",
      "one execution per operation sequence; a state is the model state (contents, connections, flags) after an operation; sequences cut when an operation needs an unconnected port")
check("C12", ["C12"],
      "all sequences of 3-4 (thorough 4-6) object sets over 4-6 ids, 0-6 channels, all orders of ids for up to 3 channels, sets up to one larger than the capacity",
      "one execution per sequence of object sets; a state is the resulting object-to-channel map",
      assumptions=["object ids within one set are unique (documented precondition)"])
check("C25", ["C25"],
      "all ranges with start,end in 0..13 (thorough 0..39) and steps -15..15 (-41..41); all lists of up to 3 of 9 ranges; all value lists of length <=5 (6) over 6 values",
      "one execution per range/list; a state is the denoted index sequence",
      assumptions=["index arithmetic near the limits of the integer type is not explored"])
check("C01", ["C01"],
      "all wirings (every receiver channel x every source channel, all source channels used, acyclic) of 18 (thorough 20) component sets with up to 4 (5) atomic components, up to 2 nesting levels, up to 4-channel ports, float and double signals; declaration orders, declaration styles and periods 1/3/8 fully enumerated for small sets, coupled for large ones; 3 blocks each, cycling through 5 ways of calling the flow",
      "one execution per wired graph; a state is (wiring, declaration order); outputs compared sample by sample, bit-exact",
      assumptions=["components are deterministic functions of their current inputs (integer-valued test functions that distinguish all inputs, outputs and blocks)"])
check("C02", ["C02"],
      "all well-formed wirings of 46 (thorough 52) component sets with up to 4 atomic components, up to 3 nesting levels, all three protocols with two payload types, mixed with audio dependencies; all declaration orders of small sets; 4-5 periods with 0-2 sends per period",
      "one execution per wired graph; a state is (wiring, order); every observation of every component and of the host in every period is compared with the model",
      assumptions=["components send as a deterministic function of what they observed"])
check("C03", ["C03"],
      "all relations with 0, 1 or 2 sources per receiver (number of anomalies per graph bounded by 1-3, thorough 3-5) for 12 audio and 30 parameter/audio component sets, up to 3 nesting levels; sample types, protocols, payload types and configurations; 25+16 kinds of calls naming nonexisting or wrong things",
      "one execution per (possibly malformed) graph; a state is the graph; the verdict of the construction is compared with the definition of well-formedness",
      assumptions=["closed loops of pass-through connections that feed no component and no output are unspecified and not judged"])
check("C27", ["C27"],
      "rendering periods 1,2,3,4,5,8,16; all sequences of 2-4 (thorough 4-6) host block sizes 0..2*period+2, 4 channel configurations, 5 calling conventions (planar pointers, planar, interleaved, strided in, strided out); all constant host sizes 1-20 (1-50) with periods 1-16 (1-40) over 60 blocks",
      "one execution per sequence of host block sizes; a state is (period, fill level, convention, widths)")
check("C05", ["C05"],
      "all histories of 3 (thorough 4) periods where each period succeeds or any of 3 components (one nested) fails in any of 5 ways (2 exceptions, 2 status reports, failure after producing output) or only warns; periods 1/4/6, 2 sampling rates, 3 ways of calling; lock probed from a second thread inside every component for all 2-period histories",
      "one execution per history; a state is (period, successful periods, pending messages, event)",
      assumptions=["failing periods are not counted as processed", "components fail by exceptions derived from std::exception or by error status reports"])
check("C07", ["C07"],
      "circular buffer: lengths 1-5, 0-3 channels, all sequences of 2-3 (thorough 3-4) writes of every size by 5 methods, every read after each; delay line: orders 0-9, blocks 1-8 (1-16), maximum delays 0-5 (0-9), 3 policies, all pairs of delays on a quarter-sample (half-sample for orders > 3) grid in every block until the buffer has wrapped twice; float and double; coefficients on a grid of 48 (3840) positions",
      "one execution per configuration and write history; a state is the configuration and write position",
      assumptions=["delays within 0.001 samples of a switching point between interpolation nodes may use either node set", "getReadPointers with a delay equal to the buffer length is not judged"])
check("C08", ["C08"],
      "all sequences of 3-4 (thorough 4-5) periods with one of 11 events each (set delay/gain/both/twice, wrong size), transitions of 1-4 periods, delay vector 1-2 channels and delay matrix 2x2, 1x3, 3x1, 4 control port configurations, interpolation orders 0-5, all policies; the same histories for the DelayVector signal flow with its gain and delay inputs",
      "one execution per history; a state is (configuration, ramp positions and values)",
      assumptions=["delays exceeding the configured maximum are not part of the histories"])
check("C09", ["C09"],
      "fader: blocks 1-20 (thorough 1-40), 0-50 (0-130) interpolation steps, every block index, float/double, with and without alignment; gain matrix: all sequences of 3-4 (4-5) of up to 10 operations (set, process, process with gains, wrong size) for 1x1..3x1, 1x3, empty, 6 transition lengths including non-multiples of the block; gain vector and matrix components: all sequences of 3-5 (4-6) periods with 6 events, periods 1-16; sum of 0-5 (0-8) inputs of width 0-4 (0-7); the GainMatrix signal flow with all sequences of settings and blocks",
      "one execution per history; a state is (ramp position, start and target gains)",
      assumptions=["a gain matrix component with control input takes the value of its control parameter as a new setting in every period (fixed by an existing test)"])
check("C10", ["C10"],
      "2 inputs, 2 outputs, 2 filter slots: all sequences of 4 (thorough 5) of 21 edits (set/reset/clear filters and routings, single, as list, invalid) with a block after each, all of 3 (4) with blocks only after pairs; block lengths 1-16, filter lengths 1..4 blocks, 1-4 routings, alignments, kissfft and ffts, float and double; static filters for every block length 1-12 (1-33) and filter length 1-30 (1-80); FIR matrix component by method calls and by all sequences of 3 (4) periods with 13 message patterns including invalid ones; block FIR filter: 1-64 filters, lengths up to 2048, upsampling factors, 70 blocks, filter exchange",
      "one execution per edit history; a state is (filters, routings); every output sample compared with direct convolution of the complete input history",
      assumptions=["maximum filter length of at least one tap", "floating-point tolerance of a few hundred ulp of the largest possible sum"])
check("C11", ["C11"],
      "2 inputs, 2 outputs: all sequences of 3-4 (thorough 4-5) filter edits, of 2-3 (3-4) filter and routing edits, one block after each until all transitions and filter tails have ended; transitions 0, 1, block, 1.5 blocks, 2 blocks; blocks 1-16, filter lengths 1..3 blocks, alignments, float/double; impulse responses and transformed filters; 2-4 stored filters, 2-3 routings, 1-3 interpolants; both components by method calls and by all sequences of 3 (4) periods with 6/10 message patterns including invalid ones",
      "one execution per edit history; a state is (old and new filter and ramp position of every slot, routings); every output sample compared with direct convolution",
      assumptions=["floating-point tolerance of a few hundred ulp of the largest possible sum"])
check("C13", ["C13"],
      "index texts: all strings of up to 6 (thorough 7) characters over '0 1 3 : , - space x', all lists of up to 2 ranges over 6 values, ranges at the integer limits; float texts: all concatenations of up to 5 (6) of 9 tokens and all up to 4-part ranges over 11 numerals, float and double; JSON routing lists: every combination of 9 field contents (8 texts or absent) of one entry, 2 entries over 4; signal routing texts of up to 7 (8) characters and all lists of up to 3 pairs x 7 separators; all edit sequences of depth 4 (5; sparse 3/4)",
      "one execution per text or edit sequence, compared with an independent parser or table; a state is the content of the edited list",
      assumptions=["numbers beyond the range of the element type and lists of more than about 1e5 elements are not explored"])
check("C14", ["C14"],
      "signal routing: all sequences of 2-3 (thorough 3-4) operations out of single set/remove calls for every channel pair including absent and out-of-range channels, list calls and control messages (9 lists, 4 of them invalid or partly unconnected), with and without initial routing, 1-3 and 17 channels, periods 1-16; all sequences of 3 (4) edits of a routing parameter (add, remove, clear, parse valid and invalid texts) sent after each edit; sparse gain matrix: all sequences of 2-3 (3-4) periods with one of 8 routing lists (3 invalid) and/or one of 2 gain vectors, 4 initial lists, transitions 0..4 periods, periods 1-17",
      "one execution per update history; a state is the routing table (and ramp position); every output sample compared with the table",
      assumptions=["the message type for single sparse routing points is accepted but has no implementation in the component and is not driven"])
check("C22", ["C22"],
      "21 element-wise functions x float, double, complex float, complex double x implementations (as loaded, initialised, uninitialised, SSE, AVX, FMA) x lengths 0-35 (thorough 0-70) x alignment arguments 0-16 x operand offsets 0-16 with one operand deviating; ramps over all inclusion flags, 25 value pairs, lengths 0-9 (0-40); strided copy/fill strides 0-4; all 36 type conversions x 4 functions x strides over a pool of limit and rounding values; copies of 9 other types; matrix products up to 4x4x4 (6x6x6), transposed and padded",
      "one execution per argument combination; every element compared bit-exactly (ramps: few ulp) with the scalar definition; surroundings of every operand are poisoned or guarded",
      assumptions=["operands are integers whose products and sums are exact in the element type, so that fused and separate roundings agree", "operands do not overlap", "variants that the processor does not support are skipped"])
check("C20", ["C20"],
      "analysis: periods 1-48 (thorough 1-128), every hop dividing the period and non-dividing or zero ones, transform sizes 2-32 (2-128), window lengths 1..size+1, default and given windows, kissfft and ffts, 3 normalisations, 1-3 channels, blocks until twice the window length has passed; synthesis: the same with arbitrary spectra; analysis plus synthesis of the feed-through flow",
      "one execution per configuration; every bin of every frame compared with the definition of the discrete Fourier transform, every output sample with the overlap-add sum; invalid configurations must be rejected",
      assumptions=["even transform sizes (required by the default FFT), powers of two from 8 for ffts", "tolerance of a few ulp of the largest possible sum"])
check("C21", ["C21"],
      "component: all sequences of 3 (thorough 4) periods, each preceded by one of 8 updates (single section, channel, matrix, invalid calls, valid control message, control message with wrong rows or columns), 1-3 channels, 0-3 sections, periods 1-16 (1-32), 4 constructors, with and without control input; kernel: lengths 0-9 (0-33), 0-3 sections, strides, in place, offsets and alignments, float and double; text: 5 container types x JSON/XML x tree/stream/string x sizes 0-3; hand-written texts with every entry missing, key orders, a0 factors, ragged matrices; calculator: 8 types x 6 (13) frequencies x 6 Q x 7 gains x 3 sampling frequencies; containers: all sequences of 3 operations",
      "one execution per history or text; a state is (configuration, filter memory); every sample compared with the difference equation, coefficients with the audio EQ cookbook",
      assumptions=["matrices have rows of equal length when handed to the filter", "XML of coefficient matrices is not implemented in the code and not part of the property", "tolerance 1e-4 (float) relative to the signal scale"])
check("C26", ["C26"],
      "matrix and vector texts: all concatenations of up to 5 (thorough 6) of 12 tokens (numbers, separators, line breaks, comments, garbage), 4 element types; all shapes up to 4x5 x alignments 0-16 x separators as string, text file and audio file; BasicMatrix/BasicVector: all sequences of 2-3 (3-4) of 9 operations on two objects for 5 alignments and initial shapes; 26 parameter types: clone, copy, assign, factory creation; all pairs of configurations",
      "one execution per text, operation sequence or value pair, compared with an independent parser or plain arrays; a state is (shape, alignment, depth)",
      assumptions=["in vector texts a comment extends to the end of the text; line breaks after a comment in vectors are not explored", "moved-from objects are not used", "numbers beyond the range of the element type are not explored"])
check("C15", ["C15"],
      "8 object types: all objects with one (thorough two) of their 6-14 attributes deviating over pools of 3-10 values (extreme floats, every equaliser type, channel lists, labels, reflections, infinite lock distance), 3 ids, decoded into an empty scene and over an object of every type; messages with every attribute missing or malformed in every rotation of the attributes; positions over all 64 subsets of coordinates; output-channel texts of up to 5 (6) of 8 tokens; all sequences of 3 (4) container operations",
      "one execution per object, message or operation sequence; a state is the exact description of the scene",
      assumptions=["objects are consistent (number of output labels or HOA order match the channels)", "faulty channel lists are only logged by the code and not explored, nor is white space within channel labels", "floating-point sequences (late reverberation) agree to 6 digits, all other numbers exactly"])
check("C16", ["C16"],
      "all sequences of 3 (thorough 4) periods with none or one of 11 messages (new object, updates, change of type, several objects, empty list, broken JSON, missing or wrong attributes, good and bad descriptions mixed), bursts of up to 2 (3) messages in 2 periods, 5 (7) periods over 4 messages, encoder and decoder in series over 3 (4) scene edits",
      "one execution per message history; a state is the exact description of the decoded scene, compared with the accumulated scene after every period",
      assumptions=["well-formed objects in a message that is malformed elsewhere may or may not be applied"])
check("C18", ["C18"],
      "arrays of 1-3 loudspeakers, 0-2 virtual loudspeakers and 0-2 subwoofers in 2D and 3D: all channel assignments from a pool (thorough: 6 channels) and all interleavings of the kinds of elements; all combinations of gain form, delay, equaliser, position form, subwoofer assignment and routing of one element at a time; all triplets over 5 ids; every printable character in identifiers; 127 single-element faults in 2D and 3D, on fresh and on previously loaded arrays; all histories of 3 (4) loads, failed loads and assignments on two arrays; all shipped configurations; simple array configuration files of 0-2 (thorough 3) entries with every combination of kind, 7 ids, 8 gain forms and 3 delays, on fresh objects and after accepted and rejected files",
      "one execution per description or history; every accessor of the loaded array is compared with the description it was made from; a state is the description",
      assumptions=["each route and each subwoofer names a loudspeaker at most once", "configuration files that give subwoofer assignments as numeric ranges (a former format) are not explored"])
check("C19", ["C19"],
      "scenes of up to two objects from a universe of 32 (all object types, single- and multi-channel, admissible and with channels, labels, orders or equalisers that do not exist) on 10 signal channels, followed by all sequences of 2 (thorough 3) changes (scene emptied, object removed, exchanged or replaced, listener moved, nothing), on a 2D and a 3D array with virtual loudspeakers; PanningCalculator in 7 output modes x 3 normalisations x fixed/tracked listener, plus sources at, between and around all loudspeakers; ObjectGainEqCalculator with 1-3 sections; DiffusionGainCalculator; ChannelObjectRoutingCalculator; HoaAllRadGainCalculator; CAPGainCalculator in 4 configurations",
      "one execution per history; after every period all gains, equalisers and routings are compared with those that the current scene and listener alone determine; a state is the expected output",
      assumptions=["objects of one scene do not share a signal channel", "diffuse parts of extended sources and channel objects in DiffusionGainCalculator, and extended sources in CAPGainCalculator, are not prescribed"])
check("C23", ["C23"],
      "all yaw/pitch/roll triples on a 15 (thorough 5) degree grid and all axis/angle rotations with small integer axes in float and double; all pairs of rotations on a 45 (thorough 30) degree grid; all vectors with small integer components; listener pose operation sequences of length 3 (4); all tracker message batches of up to 3 (4) messages over faces, timestamps, poses and malformed texts, and sequences of 2 (3) periods; compensation for all arrays of a set with regular and virtual loudspeakers and listener position sequences of length 3 (5)",
      "one execution per rotation, pair, vector, message sequence or listener history; results compared with 3x3 rotation matrices and distances in double precision; a state is the resulting pose or output",
      assumptions=["messages are well-formed or lack/mistype a mandatory element; JSON number syntax itself is Boost's", "yaw and roll of straight up/down poses are compared through the rotation they describe"])
check("C24", ["C24"],
      "4 loudspeaker arrays (2D/3D, virtual loudspeakers, 0-2 subwoofers, output EQ, gain and delay adjustment, gaps in the channel numbers) x tracking x two-band panning x 0-2 object EQ sections x diffusion filter lengths 0,1,5,40 x periods x interpolation 0,1,3 periods x output counts with one scene change and listener move; 7 configurations with all scenes of two objects from universes of 8 and 4 and one (thorough two) changes, and with two (four) updates; BaselineRenderer and BunchRenderer driven through loopback UDP",
      "one execution per configuration and history; every output sample is compared with a double-precision reference of the complete chain whose panning gains are computed from the array description; a state is the output of one period",
      assumptions=["samples whose nearest-neighbour delay is within 0.002 samples of a tie are not compared", "2D arrays are used with listeners in the horizontal plane", "objects of one scene do not share a channel", "the crossover of frequency-dependent panning is the fixed pair for 48 kHz"])
check("C06", ["C06", "C06R"],
      "all sequences of 6 (thorough 8) events (message, period) in synchronous mode and of 3-4 (4-6) events (message, period, turn of the service thread) in asynchronous mode, followed by complete delivery or immediate shutdown; all schedules of the two threads with one preemption, and with up to 2 (3) preemptions for the shorter sequences, at every mutex operation, allocation, socket call and wait; 4 sets of contents (text, empty and single bytes, binary with null bytes, 8192 bytes); every schedule explored once under AddressSanitizer and once with a happens-before race detector on every memory access of the components and the Asio library",
      "one execution per schedule of the real code on the loopback interface under a controlled scheduler; a state is (scheduling points, context switches)",
      assumptions=["the loopback interface neither loses nor reorders datagrams", "memory accesses are sequentially consistent between synchronisation operations (races are reported)"])
check("C28", ["C28"],
      "parameter calculation: all sequences of 2 (thorough 3) scenes with 2 objects, each kept, absent or one of 9 (6) variants, and of 3 (4) scenes with 3 objects, up to 3 channels and 0-3 reflections per object, 2 arrays; late filters: all sequences of 0-3 messages in 3 periods, 1-3 channels, 4 filter lengths, 4 update limits; complete renderer: all sequences of 2 scenes with 2 objects (3, thorough 9, variants), 2 arrays, 2 period lengths, with and without crossfade, and all longer sequences of 3 (4) scenes; impulse responses of all loudspeakers compared with a double-precision reference; generated decorrelation filters of 3 arrays",
      "one execution per history; a state is the configuration with the assignment of objects to channels",
      assumptions=["the noise sequences and generated decorrelation filters themselves are not prescribed (they are observed and checked for band, level and difference)", "responses are compared after the transitions have ended", "the envelope lies within the filter length"])
check("C17", ["C17"],
      "VBAP on all 2D rings of 3-4 (thorough 3-5) loudspeakers on an angular grid and on tetrahedron, cube and bipyramids with equal and different distances, every loudspeaker in turn made virtual with up to 3 routings, (thorough: all orders of the triplets), 3 (6) listener positions, point and plane-wave sources at 3 distances in all grid directions and exactly at the loudspeakers; all shipped configurations with 6 listener positions; all histories of 3 (4) listener moves and calculations; AllRAD for orders 0-3 over 5x5 arrays with listener moves; CAP over 1-8 loudspeakers, 72 head orientations, 6 listener positions, 26 directions",
      "one execution per layout, listener and distance, each covering the whole direction grid; gains compared with a double-precision solution of the panning equations",
      assumptions=["layouts are only claimed from listener positions that see a complete and non-overlapping triangulation with well-conditioned triplets", "sources are at least 1 mm from the listener"])
check("C30", ["C30"],
      "single datagrams with up to two messages or bundles for 5 value types, all argument lists of a pool (every type tag used, several arguments, none, extreme values, NaN), all sequences of two datagrams in one period and of datagrams in two periods, every truncation and every replacement of a byte by one of 10 values in a datagram between two intact ones; all type names",
      "one execution per datagram sequence; a state is the sequence of expected values",
      assumptions=["only the first argument of a message is significant"])
check("C31", ["C31"],
      "filters: all lists of up to 3 of 4 files (1-3 channels, 1-9 samples), all start indices from a pool or none or a wrong number, 4 length and 4 number limits, 4 ways of quoting, 2 alignments, float and double, empty and used target matrices, 8 faulty lists; options: all command lines of up to 3 (thorough 4) of 18 option forms (6 of them faulty) of 4 types, all option files of up to 2 forms with up to 1 (2) forms before or after the file on the command line, 3 styles of separators, 3 ways of naming the file and a missing file",
      "one execution per combination; every tap of the filter matrix and every option value compared with the definition; a state is the resulting size or set of values",
      assumptions=["arguments without a leading dash that do not belong to an option are ignored by the parser and not explored", "an option value in a file is only evaluated if it is not given on the command line"])
check("C32", ["C32"],
      "signal flows and buffer wrappers (3 component types, 5 periods, 0-3 inputs) with arrays of 9 layouts and 11 kinds of wrong arrays between them; ports of Python components of 4 element types and 5 widths with read and write accesses of every layout, type and shape; composites (nesting, wiring with index lists, 12 orders of destruction); parameters through 3 protocols; vector, matrix and time-frequency containers of up to 4 types, 4 shapes, 5 alignments, 9 layouts; 19 vector functions and 5 strided functions with every operand layout, 6 result types, too short arrays; biquad filters; 3 convolvers with 9 layouts, exchanged filters and 6 wrong blocks; 13 kinds of rcl components in all forms of construction (default values, scalars, arrays, vectors of the efl module, wrong sizes), processed over 3 blocks; loudspeaker arrays (rings with virtual loudspeakers, subwoofers, equalisers) with all accessors and indices, VBAP with 8 kinds of gain arrays; panning gain parameters and matrices with messages; positions, quaternions and listener positions (36 orientations, all forms of creation, all operations) against rotation matrices; 8 object types with all pairs of attributes; lists of objects, routings (all sequences of 3, thorough 4, operations), biquads and biquad matrices",
      "one execution per combination; results compared with NumPy and Python lists; every memory access checked by AddressSanitizer; a state is the configuration",
      assumptions=["functions of parameters and objects that are not bound to Python are not explored", "arrays returned for an output port by data() and [] are copies", "an empty index list in audioConnection stands for all channels"])
check("C33", ["C33"],
      "rotation matrices and spherical-harmonics rotations of 8x5x5 (thorough 8x5x8) orientations for orders 0-3 (0-6), spherical harmonics of orders 0-4 (0-8) in all pairs of 8 directions; HOA encoding of all histories of scenes with 0-2 objects, rotation of coefficients and calculation of rotation matrices for 7 tracked and 4 initial orientations, orders 0-3, 2-3 blocks; HRIR controller: 1-2 objects, 14 measured directions, all combinations of dynamic delays, levels, interpolation, interpolating convolver and tracking, histories of 2 (3) scenes and orientations; virtual loudspeaker controller: 1 and 3 loudspeakers, horizontal and spherical sets, the same options, 8 initial orientations, histories of 3 (4) orientations; four complete renderers: impulse responses of all objects and ears after each of 2 scene and orientation changes, for 3 initial or static orientations and all combinations of interpolation, crossfading, interpolating convolver, dynamic delays, levels and late reverberation",
      "one execution per history; filters, weights, delays, gains and impulse responses compared with a double-precision model of the geometry (explicit head rotations, addition theorem, exhaustive search of nearest directions and enclosing triplets); a state is the configuration with the history",
      assumptions=["SOFA files and tracking devices are not available", "measured directions are the corners and faces of a cube or a horizontal pentagon", "source directions with equally distant measured directions may use any of them", "responses are compared after the transitions have ended"])
check("C29", ["C29"],
      "one object: all sequences of 3 (thorough 4) messages in consecutive periods, each absent or with one of 4 start times and 4 durations relative to the period, for 5 period lengths, and of 3 messages with 7 start times and 6 durations; two and three objects with independent transitions (including start times in the past), with and without initial transitions, 1-2 loudspeakers; every output sample compared with a sample-by-sample evaluation of the documented rules; parameters of all sizes up to 2x2 (3x3): all constructors, copies, clones and assignments",
      "one execution per message history; a state is the configuration with the progress of the present transition and the stored transition of every object",
      assumptions=["a message replacing a stored transition that starts at that very sample is not distinguished from one received after it has started"])
