NOT_APPLICABLE = {}
NOTE = 'Random search with shrinking; no exhaustive claim. Trusts the oracle in the harness, gcc and AddressSanitizer. '
PROPS = []


def prop(id, title, statement, over, quant, why, files, mech, observe, technique, note=''):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files, mech=mech,
                      observe=observe, technique='property-based testing: ' + technique, note=NOTE + note))


prop('P01', 'Vector kernels equal their element-wise definition',
     'Every vector and matrix kernel (fill, ramp, copy, add, multiply, multiply-add, with a constant or a vector, in place or not, strided, type-converting, FIR/IIR section) '
     'produces exactly the element-wise mathematical result within rounding, for every length, every buffer alignment that the caller promises, every sample type and every processor-specific implementation. '
     'No element outside the given range is read or written, and pointers that break the promised alignment are reported as an error and leave the destination untouched.',
     ['inputs', 'configurations'],
     'all kernels x lengths 0..~300 x start offsets x promised alignment x {float,double,complex} x {reference, SSE, AVX, AVX+FMA}',
     'The unit tests use a few fixed aligned lengths with one implementation; remainder loops, mis-aligned starts and the per-CPU variants are never compared with a model.',
     ['src/libefl/vector_functions.hpp', 'src/libefl/reference/vector_functions_impl.hpp', 'src/libefl/vector_functions.cpp', 'src/libefl/matrix_functions.hpp', 'src/libefl/vector_conversions.hpp'],
     [('reference kernels', 'src/libefl/reference/vector_functions_impl.hpp'), ('SIMD kernels and dispatch', 'src/libefl/intel_x86_64')],
     ['destination buffers, guard elements, returned error code'],
     'differential test of every kernel variant against a long-double element-wise model')

prop('P02', 'Partitioned convolution equals direct convolution of the routed filters',
     'The block-partitioned multichannel convolver outputs, for every input history, exactly the sum over the current routings of gain times the linear convolution of the input with the selected filter, block by block, with no added latency. '
     'Filters and routings may be set, replaced, removed or cleared between any two blocks and take effect from the next block on the whole retained input history; requests outside the configured capacities are rejected without effect. '
     'The Fourier transform back ends satisfy forward/inverse identity and agree with the discrete Fourier transform definition, and the block circular buffer returns the most recent samples in order.',
     ['inputs', 'histories', 'configurations'],
     'all channel/filter/routing capacities, block lengths (any, not only powers of two), filter lengths, alignments, FFT libraries, and histories of filter/routing edits and processed blocks',
     'Unit tests run one configuration with impulse-like data and do not compare with a model after changes of filters and routings.',
     ['src/librbbl/multichannel_convolver_uniform.cpp', 'src/librbbl/core_convolver_uniform.cpp', 'src/librbbl/circular_buffer.hpp', 'src/librbbl/fft_wrapper_base.hpp'],
     [('uniformly partitioned convolution', 'src/librbbl/core_convolver_uniform.cpp'), ('routing and filter table', 'src/librbbl/multichannel_convolver_uniform.cpp')],
     ['output samples per block, returned values and errors of the edit calls'],
     'stateful model-based test against direct time-domain convolution in double precision')

prop('P03', 'Filter crossfades and interpolation follow the old and new impulse responses',
     'After a filter exchange the output moves from the convolution with the old filter to that with the new filter along the documented crossfade, sample by sample, reaches exactly the new filter when the transition ends, and never drops out or jumps. '
     'The interpolating convolver outputs for each routing the weighted sum of the filters currently assigned, and changed weights or indices are honoured the same way. '
     'This holds for every length of transition, also shorter or longer than a block, and for exchanges issued in the middle of a running transition.',
     ['inputs', 'histories', 'configurations'],
     'all block lengths, transition lengths, filter lengths, alignments and histories of filter exchanges, interpolant updates, routing edits and blocks',
     'Tests check at most a completed transition of one filter; interleavings of updates and partial transitions are unbounded.',
     ['src/librbbl/crossfading_convolver_uniform.cpp', 'src/librbbl/interpolating_convolver_uniform.cpp'],
     [('double-convolution crossfade', 'src/librbbl/crossfading_convolver_uniform.cpp'), ('frequency-domain interpolation', 'src/librbbl/interpolating_convolver_uniform.cpp')],
     ['output samples per block, returned values and errors'],
     'stateful model-based test against time-domain convolution with modelled ramps')

prop('P04', 'Delay lines deliver the input delayed and scaled as requested',
     'For every delay in the supported range, the delay components output the input signal delayed by the requested time (plus the fixed latency of the interpolation method) and scaled by the requested gain; delays that fall on whole samples are exact and fractional delays follow the interpolation polynomial. '
     'A parameter change moves delay and gain linearly from the values in force to the new ones over the configured transition time, with no discontinuity, also when it arrives during a running transition. '
     'The output never depends on samples outside the channel\'s own history, and delays outside the supported range are rejected.',
     ['inputs', 'histories', 'configurations'],
     'all interpolation methods, block lengths, channel counts, maximum delays, method-delay policies, and histories of delay/gain updates',
     'Wrap-around of the ring buffer, window edges and updates in mid-transition depend on the history of all preceding blocks.',
     ['src/librbbl/multichannel_delay_line.cpp', 'src/librbbl/lagrange_interpolator.hpp', 'src/librcl/delay_vector.cpp', 'src/librcl/delay_matrix.cpp'],
     [('ring buffer and interpolation', 'src/librbbl/multichannel_delay_line.cpp'), ('parameter transitions', 'src/librcl/delay_vector.cpp')],
     ['output samples of the component per block'],
     'model-based test against an unbounded-history interpolation model over random parameter histories')

prop('P05', 'Gains, matrices, routing and mixing give the exact weighted sum',
     'Gain, gain-matrix, sparse-gain, signal-routing and adder components output for every sample the sum of the input channels weighted with the gains in force; routing connects exactly the requested channels, outputs without a source are silent, and invalid requests are rejected. '
     'When a gain is changed, it moves linearly from the value in force to the new value over the configured transition time and then stays there exactly (a gain matrix with control input starts this transition anew from the value in force in each block). '
     'This also holds for changes that arrive in the middle of a transition or several at once, for every block size, channel count and transition length.',
     ['inputs', 'histories', 'configurations'],
     'all block sizes, channel counts, transition lengths, initial values, routings, and histories of updates interleaved with blocks',
     'Fades depend on the history of updates relative to block boundaries; tests check a static gain or print values.',
     ['src/librbbl/gain_fader.cpp', 'src/librbbl/gain_matrix.cpp', 'src/librcl/gain_vector.cpp', 'src/librcl/gain_matrix.cpp', 'src/librcl/sparse_gain_matrix.cpp', 'src/librcl/signal_routing.cpp', 'src/librcl/add.cpp'],
     [('gain ramps', 'src/librbbl/gain_fader.cpp'), ('gain update protocol', 'src/librcl/gain_vector.cpp')],
     ['output samples of the component per block, errors'],
     'model-based test of update/block histories against a per-sample gain model')

prop('P06', 'Filter components honour every control message exactly',
     'The FIR filter matrix components (plain, crossfading, interpolating) output the routed convolutions that result from applying all filter, routing and interpolation messages in the order they were sent, each from the block in which it was received on. '
     'The IIR filter component outputs for each channel the cascade of second-order sections with the coefficients last received, keeps its state across blocks and updates, and is flat until coefficients are set. '
     'This holds for every block size, channel count, routing table and message history.',
     ['inputs', 'histories', 'configurations'],
     'all channel counts, filter lengths, block sizes, initial filters/routings, and histories of control messages and blocks',
     'The order and combination of messages is unbounded; the tests use none or one message.',
     ['src/librcl/fir_filter_matrix.cpp', 'src/librcl/crossfading_fir_filter_matrix.cpp', 'src/librcl/interpolating_fir_filter_matrix.cpp', 'src/librcl/biquad_iir_filter.cpp', 'src/libefl/reference/filter_functions_impl.hpp'],
     [('control message handling', 'src/librcl/fir_filter_matrix.cpp'), ('IIR cascade', 'src/librcl/biquad_iir_filter.cpp')],
     ['output samples of the component per block'],
     'model-based test of message/block histories against time-domain convolution and recursive filter models')

prop('P07', 'Time-frequency analysis and synthesis equal the windowed DFT and overlap-add',
     'The analysis component outputs for each hop the discrete Fourier transform of the most recent window of the input multiplied by the window function, zero-padded to the transform size; the synthesis component overlap-adds the inverse transforms at the hop spacing. '
     'Both in series reproduce the input delayed by a fixed latency and weighted with the sum of the shifted windows. '
     'This holds for every hop size, window length up to the transform size, number of hops per block and channel count.',
     ['inputs', 'histories', 'configurations'],
     'all combinations of window length, hop size, DFT size, period, channels and block histories',
     'The correctness depends on the ring-buffer position over many blocks and on the ratio of the sizes; the tests use one ratio.',
     ['src/librcl/time_frequency_transform.cpp', 'src/librcl/time_frequency_inverse_transform.cpp'],
     [('analysis', 'src/librcl/time_frequency_transform.cpp'), ('synthesis', 'src/librcl/time_frequency_inverse_transform.cpp')],
     ['time-frequency frames and output samples per block'],
     'model-based test against a direct DFT and overlap-add model, and a round-trip relation')

prop('P08', 'Signal flows compute exactly what their connections say',
     'A signal flow built from any nesting of composite components, any channel-wise connections and any order of component creation and connection produces, sample for sample, what its atomic components compute when each receives exactly the channels connected to it. '
     'Every component is executed exactly once per block, after all components it depends on, with the time advancing by one block; all variants of the processing call (pointer arrays, strided, matrix, interleaved) give the same result and touch only the samples they are asked to write. '
     'Channel ranges and lists expand to the index sequences they denote, and the port queries describe the external ports.',
     ['configurations', 'inputs', 'histories'],
     'all hierarchies, port widths, sample types, connection orders, block sizes, call variants and strides',
     'The number of graph shapes, channel permutations and hierarchy depths is unbounded; the tests connect two or three fixed components.',
     ['src/librrl/audio_signal_flow.cpp', 'src/librrl/audio_connection_map.cpp', 'src/librrl/scheduling_graph.cpp', 'src/librrl/signal_routing_internal.cpp', 'src/libvisr/channel_list.cpp', 'src/libvisr/impl/composite_component_implementation.cpp'],
     [('flattening of the hierarchy', 'src/librrl/audio_connection_map.cpp'), ('execution order', 'src/librrl/scheduling_graph.cpp'), ('buffer assignment', 'src/librrl/audio_signal_flow.cpp')],
     ['output samples, call count and time seen by each component'],
     'random hierarchical graphs against a flat reference evaluation of the same graph')

prop('P09', 'A signal flow is accepted exactly if it is well-formed',
     'A signal flow in which every port channel is connected, every receiver has exactly one sender, connected ports agree in sample type, parameter type, protocol and configuration, indices exist, names are unique and the dependencies contain no cycle is accepted and runs. '
     'A flow that violates any of these conditions anywhere in its hierarchy is rejected with an error before any audio is processed.',
     ['configurations', 'inputs'],
     'all hierarchies and connections, with every kind of single structural fault injected at every place',
     'A fault may sit at any level of the hierarchy and on any channel; the tests contain a few hand-written faulty flows.',
     ['src/librrl/integrity_checking.cpp', 'src/librrl/port_utilities.cpp', 'src/librrl/audio_connection_map.cpp', 'src/librrl/parameter_connection_map.cpp', 'src/librrl/parameter_connection_graph.cpp', 'src/librrl/scheduling_graph.cpp', 'src/libpml/matrix_parameter_config.cpp', 'src/libpml/vector_parameter_config.cpp', 'src/libpml/interpolation_parameter.cpp'],
     [('audio and parameter connection check', 'src/librrl/integrity_checking.cpp'), ('cycle detection', 'src/librrl/scheduling_graph.cpp')],
     ['acceptance or error of the flow construction'],
     'fault injection into random valid flows; the valid flow must be accepted, the faulty one rejected')

prop('P10', 'Parameter connections deliver every value within the same block',
     'Values sent through parameter connections reach all connected receivers in the block they are sent, in the form the protocol promises: shared data shows the current value, double buffering shows the value published by the last swap and signals a change until it is reset, message queues deliver every message once, in order. '
     'This holds through any nesting of composites, for any fan-out the protocol permits, for external ports of the flow, and for every order of connection and history of send and receive operations.',
     ['configurations', 'histories'],
     'all hierarchies of parameter connections, protocols and parameter types, and histories of operations over several blocks',
     'Delivery depends on the flattening of the hierarchy, the execution order and the history of the protocol state.',
     ['src/libpml/shared_data_protocol.cpp', 'src/libpml/double_buffering_protocol.cpp', 'src/libpml/message_queue_protocol.cpp', 'src/librrl/parameter_connection_graph.cpp', 'src/librrl/parameter_connection_map.cpp', 'src/librrl/audio_signal_flow.cpp'],
     [('double buffering', 'src/libpml/double_buffering_protocol.cpp'), ('message queue', 'src/libpml/message_queue_protocol.hpp'), ('connection of ports', 'src/librrl/parameter_connection_graph.cpp')],
     ['values, changed flags and messages seen by each receiver in each block'],
     'model-based test: random parameter graphs and operation scripts against a protocol model')

prop('P11', 'Block-size adaptation and ring buffers lose or reorder no samples',
     'Wrapped for flexible block sizes, a signal flow produces for every sequence of call sizes (including zero, and sizes above and below its period) and every memory layout exactly its output signal delayed by one period. '
     'A ring buffer returns for each delay below its length exactly the samples written that long ago, for every sequence of write sizes and write methods, and rejects accesses beyond its size.',
     ['inputs', 'histories', 'configurations'],
     'all sequences of call or write sizes, channel counts, buffer lengths, alignments and memory layouts',
     'Errors show only for particular sequences of sizes relative to the buffer length and the wrap-around position.',
     ['src/librrl/flexible_buffer_wrapper.cpp', 'src/librbbl/circular_buffer.cpp'],
     [('size adaptation', 'src/librrl/flexible_buffer_wrapper.cpp'), ('ring buffer', 'src/librbbl/circular_buffer.cpp')],
     ['output samples per call'],
     'model-based test of call-size sequences against an unbounded signal history')

prop('P12', 'Object metadata messages update exactly the objects they name',
     'Any valid scene message, in any of the accepted notations (field order, Cartesian or spherical positions, numbers or quoted numbers, channel lists and ranges), sets exactly the stated attributes; incremental updates change only the objects they name, and the scene decoder shows after each block the result of all messages received so far, in order. '
     'An invalid message is rejected with an error and leaves the faulty object as it was. '
     'A scene that is encoded and decoded again is the same scene.',
     ['inputs', 'histories'],
     'all scenes of all object types, all message notations, all damaged messages, all histories of full and incremental updates',
     'The message space (types, optional attributes, notations, damage) and the update histories are unbounded; the tests parse a few example messages.',
     ['src/libobjectmodel/object_vector_parser.cpp', 'src/libobjectmodel/object_vector.cpp', 'src/libobjectmodel/object_parser.cpp', 'src/librcl/scene_decoder.cpp', 'src/librcl/scene_encoder.cpp', 'src/libpml/object_vector.cpp'],
     [('message parsing', 'src/libobjectmodel/object_vector_parser.cpp'), ('per-type parsing and writing', 'src/libobjectmodel/object_parser.cpp'), ('decoder component', 'src/librcl/scene_decoder.cpp')],
     ['attributes of the objects in the scene after each message or block'],
     'structured message generation and mutation against a scene model, round trips and update histories')

prop('P13', 'Textual routings, index lists and tables mean what they say, or are rejected',
     'Every textual index list, value list, signal routing, filter routing and gain routing table that follows its documented notation is expanded to exactly the indices, values and entries it states (ranges, steps, repetitions, broadcasts, any layout of white space). '
     'Text that does not follow the notation is rejected with an error, and a rejected or erroneous update leaves the existing content unchanged. '
     'Tables kept through histories of additions and removals hold exactly the entries that were added and not removed, and writing and reading a table yields the same table.',
     ['inputs', 'histories'],
     'all texts of the notations, all damaged texts, all histories of additions and removals',
     'The notations allow unboundedly many combinations of ranges, steps and broadcasts; the tests parse a few examples.',
     ['src/libpml/signal_routing_parameter.cpp', 'src/libpml/filter_routing_parameter.cpp', 'src/libpml/sparse_gain_routing_parameter.cpp', 'src/librbbl/filter_routing.cpp', 'src/librbbl/sparse_gain_routing.cpp', 'src/librbbl/index_sequence.cpp', 'src/librbbl/float_sequence.cpp'],
     [('index lists', 'src/librbbl/index_sequence.cpp'), ('value lists', 'src/librbbl/float_sequence.cpp'), ('filter routings', 'src/librbbl/filter_routing.cpp'), ('gain routings', 'src/librbbl/sparse_gain_routing.cpp')],
     ['expanded lists and table entries, acceptance or rejection'],
     'grammar-based generation of valid and damaged texts against an independent expansion, round trips, update histories')

prop('P14', 'Parametric equaliser settings are realised exactly and survive storage',
     'For every filter type, centre frequency, quality, gain and sampling rate, the computed digital filter has the frequency response of the specified analogue equaliser section (bilinear transform with the centre frequency mapped exactly), and section lists are padded with neutral sections. '
     'Filter settings and coefficients written as JSON or XML and read again are the same; coefficients are normalised; malformed descriptions are rejected with an error.',
     ['inputs', 'configurations'],
     'all equaliser settings and sampling rates, all section lists and matrices, all textual descriptions and damaged ones',
     'The response must be right over a continuous parameter space; the tests sample a handful of settings.',
     ['src/librbbl/parametric_iir_coefficient_calculator.cpp', 'src/librbbl/parametric_iir_coefficient.cpp', 'src/librbbl/biquad_coefficient.cpp', 'src/libpml/biquad_parameter.cpp'],
     [('coefficient design', 'src/librbbl/parametric_iir_coefficient_calculator.cpp'), ('coefficient storage', 'src/librbbl/biquad_coefficient.cpp')],
     ['frequency response of the computed coefficients', 'values after reading back'],
     'random settings against an analytic reference response; round trips and damaged descriptions')

prop('P15', 'Vectors and matrices keep exactly the values given, from any source',
     'Vectors and matrices read from text or audio files contain exactly the stated values in the stated shape, whatever the layout, separators, comments, sample format or alignment; inconsistent or malformed sources are rejected with an error. '
     'Through every history of writing, copying, assigning, swapping, cloning and resizing, each container holds exactly the values last stored in it, with every row suitably aligned, and operations on mismatching sizes are rejected without any change.',
     ['inputs', 'histories'],
     'all texts and WAV files, element types, alignments and histories of container operations',
     'Layouts, sizes and alignments interact (row padding, empty rows, separators) in unboundedly many combinations.',
     ['src/libpml/matrix_parameter.cpp', 'src/libpml/vector_parameter.cpp', 'src/libefl/basic_matrix.hpp', 'src/libefl/basic_vector.hpp', 'src/libefl/aligned_array.hpp'],
     [('matrix import', 'src/libpml/matrix_parameter.cpp'), ('vector import', 'src/libpml/vector_parameter.cpp'), ('containers', 'src/libefl/basic_matrix.hpp')],
     ['sizes, alignment and values of all containers after each step'],
     'generated texts and audio files against the generating values; model-based operation histories')

prop('P16', 'Rotations, positions and listener poses compose as rigid motions',
     'For all angles, axes, positions and sequences of motions, orientations in any notation (yaw/pitch/roll, axis and angle, quaternion) denote the same rotation, composition, inversion, interpolation, angular distance and coordinate conversion agree with Euclidean geometry, and no finite position or orientation yields an undefined value. '
     'A listener pose written as text and read again is the same pose, malformed poses are rejected without altering the existing one. '
     'From the tracking messages of each block the newest one of the lowest face is used and moved by the configured offset; malformed messages are skipped.',
     ['inputs', 'histories'],
     'all rotations, positions and poses, all histories of motions, all sequences of valid and malformed tracking messages',
     'Geometry has to hold on a continuous space including its singular places; the tests use a few hand-picked angles and messages.',
     ['src/librbbl/quaternion.cpp', 'src/librbbl/position_3d.cpp', 'src/libpml/listener_position.cpp', 'src/librcl/position_decoder.cpp', 'src/libefl/cartesian_spherical_conversion.hpp'],
     [('rotations', 'src/librbbl/quaternion.cpp'), ('poses', 'src/libpml/listener_position.cpp'), ('tracking messages', 'src/librcl/position_decoder.cpp')],
     ['coordinates and rotation matrices after each step', 'pose output of the decoder after each block'],
     'random motions against rotation matrices in double precision; round trips, damaged messages, message histories')

prop('P17', 'Loudspeaker array configurations are taken over exactly or rejected',
     'Every valid array configuration (2D or 3D, loudspeakers in any order, virtual loudspeakers with rerouting, subwoofers, gain, delay and equaliser settings, any layout of the text) yields exactly the stated loudspeakers, ordered by output channel, and every triplet, route, subwoofer weight and equaliser refers to the loudspeaker it names. '
     'Configurations that are inconsistent (duplicate or unknown ids, duplicate or invalid channels, missing or malformed attributes, references to loudspeakers without an output) are rejected with an error, never accepted with wrong content. '
     'Loading again, assigning and querying by index or by id are consistent with the configuration loaded last.',
     ['configurations', 'inputs', 'histories'],
     'all array configurations and their textual layouts, all faulty configurations, all histories of loading and assigning',
     'A wrong association of channels, gains or triplets sends sound to the wrong loudspeaker; the tests load a few shipped files and check little of the content.',
     ['src/libpanning/LoudspeakerArray.cpp', 'src/libpanning/LoudspeakerArray.h'],
     [('configuration parsing', 'src/libpanning/LoudspeakerArray.cpp'), ('queries', 'src/libpanning/LoudspeakerArray.h')],
     ['all queries of the array object after each load or assignment'],
     'generated configurations against a model; fault injection and text mutation')

prop('P18', 'Sources are panned to the loudspeakers around them with constant level',
     'For every array whose triangulation encloses the listener, and every point source, plane wave and sound field component, the gains are those of the triplet (2D: pair) containing the source as seen from the current listener position, rerouted from virtual loudspeakers and normalised as configured, independent of the distance, and always finite; loudspeakers at infinity keep their direction when the listener moves. '
     'Whenever the scene or the listener changes, the complete gain matrices correspond to the current scene: direct and diffuse parts according to the diffuseness, diffuse sources and channel objects on their loudspeakers, unused channels at zero, sound field objects decoded onto the array. '
     'Objects that cannot be rendered (signal channels beyond the matrix, unknown loudspeaker labels, too high an order) never affect other objects or memory.',
     ['configurations', 'inputs', 'histories'],
     'all enclosing 2D and 3D arrays with virtual loudspeakers, source and listener positions, object types, normalisations, histories of scene and listener changes',
     'Rounding decides which triplet is taken at loudspeakers and edges; the tests evaluate a few arrays without comparing gains.',
     ['src/libpanning/VBAP.cpp', 'src/libpanning/AllRAD.cpp', 'src/librcl/panning_calculator.cpp', 'src/librcl/hoa_allrad_gain_calculator.cpp'],
     [('panning', 'src/libpanning/VBAP.cpp'), ('sound field decoding', 'src/libpanning/AllRAD.cpp'), ('gain matrices', 'src/librcl/panning_calculator.cpp')],
     ['gains per source', 'gain matrices after each block'],
     'generated arrays, scenes and histories against a double-precision panning model')

prop('P19', 'Rendering follows the listener\'s position and head orientation',
     'For every array, listener position and head orientation, the loudspeaker gains and delays that compensate the listener position are proportional to the distances and never negative, so that all loudspeakers arrive at the listener simultaneously and at equal level. '
     'The head-adaptive gains reproduce, for every object of the scene, the particle velocity along the interaural axis that the source would have (up to the documented gain limit) at unit sum, in the high-frequency band power-normalised as configured; loudspeakers at unused channels have zero gain, and all gains are finite. '
     'Gains always correspond to the current scene and the current pose, whichever of them changed last.',
     ['configurations', 'inputs', 'histories'],
     'all enclosing arrays including virtual loudspeakers, all listener poses, scenes and histories of their changes',
     'Gains depend jointly on array, pose and scene over several updates; no test compares them.',
     ['src/librcl/listener_compensation.cpp', 'src/librcl/cap_gain_calculator.cpp', 'src/libpanning/CAP.cpp', 'src/libpanning/CAP_VBAP.cpp'],
     [('distance compensation', 'src/librcl/listener_compensation.cpp'), ('head-adaptive gains', 'src/libpanning/CAP.cpp')],
     ['gain and delay vectors, gain matrices after each block'],
     'generated arrays, poses and scenes against a double-precision model, histories of changes')

prop('P20', 'Levels, equalisers and routings derived from a scene match the scene',
     'After every change of the scene, the level and equaliser of each signal channel are those of the object using it (missing sections neutral), unused channels have zero level, the diffuseness of each channel is that of its object, and every channel of a loudspeaker-related object is routed to the loudspeaker it names. '
     'Objects with signal channels or loudspeaker labels that do not exist are skipped without affecting the other objects or memory. '
     'An object keeps its renderer slot as long as it exists, no two objects share a slot, and more objects than slots are rejected without losing the existing allocation.',
     ['inputs', 'histories'],
     'all scenes of all object types, numbers of channels and sections, array configurations, histories of scene changes',
     'Stale settings show only after particular histories of adding, changing and removing objects.',
     ['src/librcl/object_gain_eq_calculator.cpp', 'src/librcl/diffusion_gain_calculator.cpp', 'src/librcl/channel_object_routing_calculator.cpp', 'src/librbbl/object_channel_allocator.cpp'],
     [('levels and equalisers', 'src/librcl/object_gain_eq_calculator.cpp'), ('renderer slots', 'src/librbbl/object_channel_allocator.cpp')],
     ['parameter outputs after each block', 'slots after each scene'],
     'model-based histories of scenes')

prop('P21', 'The renderer reproduces a scene as specified by objects, array and listener',
     'Each output sample of the complete renderer equals the sum over the objects of the input signals shaped by the level and equaliser of the object, panned (separately for low and high frequencies if configured), with the diffuse share decorrelated, compensated for the listener position, fed to subwoofers and corrected by the loudspeaker equalisers, delays and gains, at the output channel of the loudspeaker. '
     'This holds for all array configurations and combinations of rendering options, which can all be used together, and after every change of the scene or listener position with the gains moving towards their new values without discontinuity. '
     'Output channels without loudspeaker are silent, and all outputs stay finite.',
     ['inputs', 'histories', 'configurations'],
     'all arrays, option combinations (tracking, dual-band panning, equalisers, subwoofers), block sizes, and histories of scenes and listener positions',
     'Parts that are right on their own can be wired wrongly for some option combination; tests only run single configurations without checking the output.',
     ['src/libsignalflows/core_renderer.cpp', 'src/librcl/panning_calculator.cpp', 'src/librcl/hoa_allrad_gain_calculator.cpp', 'src/librcl/gain_matrix.cpp', 'src/librcl/delay_vector.cpp'],
     [('signal flow of the renderer', 'src/libsignalflows/core_renderer.cpp')],
     ['output samples of every block'],
     'model-based random scenes and arrays against a per-sample double-precision model of the renderer')

prop('P22', 'Reverberant objects are rendered with their own reflections and late tail',
     'Every reverberant object keeps a renderer slot while it exists; the loudspeaker signals are the sum over its reflections of its signal delayed, scaled, filtered and panned as given, plus its late tail, and unused slots and reflections are silent. '
     'The late filter is the sum over frequency bands of the noise of the object and band, shaped by onset, linear attack, exponential decay and level, recomputed exactly when its parameters change; it reaches all loudspeakers with equal magnitude but different phase. '
     'Other objects, other signals and invalid objects do not influence it, and a renderer with reverberation plays the same as one without plus exactly this contribution.',
     ['inputs', 'histories', 'configurations'],
     'all scenes and histories of scenes, reverberation settings (slots, reflections, delays, filter lengths, crossfades, update limits), arrays and block sizes',
     'Slots are reused over time and updates are queued and limited, so stale parameters or swapped slots only show for particular histories; the existing tests never check the output.',
     ['src/libreverbobject/reverb_parameter_calculator.cpp', 'src/libreverbobject/late_reverb_filter_calculator.cpp', 'src/libreverbobject/reverb_object_renderer.cpp', 'src/libobjectmodel/point_source_with_reverb.cpp', 'src/librbbl/object_channel_allocator.cpp'],
     [('parameters of the slots', 'src/libreverbobject/reverb_parameter_calculator.cpp'), ('late filters', 'src/libreverbobject/late_reverb_filter_calculator.cpp'), ('signal flow', 'src/libreverbobject/reverb_object_renderer.cpp')],
     ['parameter outputs', 'late filters', 'output samples, impulse responses'],
     'model-based histories of scenes; late tails by metamorphic relations between measured impulse responses')


prop('P23', 'Scene and tracking messages travel over the network intact',
     'Every message given to a network sender arrives exactly once, byte for byte and in order at the receiver of that port, in blocking and background operation on either side, whatever the message contains and however the blocks of the two sides interleave. '
     'Scenes and listener positions sent this way are decoded to the scene and pose that was encoded. '
     'The network-controlled renderers (with and without tracking, for all numbers of inputs and outputs) reach the same output as the renderer that is given the same objects and pose directly.',
     ['inputs', 'histories', 'schedules'],
     'all message contents and sizes, batches, processing orders of sender and receiver, threads of the background modes, numbers of senders, scenes and poses',
     'Background transfer runs in threads and depends on timing and backlog; the existing tests send a few fixed strings and never run the network-controlled renderers.',
     ['src/librcl/udp_sender.cpp', 'src/librcl/udp_receiver.cpp', 'src/librcl/scene_decoder.cpp', 'src/librcl/scene_encoder.cpp', 'src/libsignalflows/baseline_renderer.cpp', 'src/libsignalflows/bunch_renderer.cpp'],
     [('sending', 'src/librcl/udp_sender.cpp'), ('receiving', 'src/librcl/udp_receiver.cpp'), ('network-controlled renderer', 'src/libsignalflows/baseline_renderer.cpp')],
     ['received messages', 'decoded scenes and poses', 'output samples'],
     'random message batches and interleavings over the loopback network against the list of sent messages; differential test of network-controlled and directly controlled renderers')

prop('P24', 'Numeric functions give the same results from Python on any numpy array',
     'Every numeric function and processing object callable from Python computes the defined result on the elements the arrays name, whatever their size, strides, alignment, offset or contiguity, and writes nothing else. '
     'Calls whose arrays do not fit the request (length, type, dimensions, alignment, strides, indices) are refused with an error before anything is read or written outside the arrays. '
     'Containers and views share or copy their memory as documented and stay valid as long as they are referenced; the convolvers report their configuration and convolve exactly through the changes made from Python.',
     ['inputs', 'histories'],
     'all functions, element types, lengths, strides, offsets, alignments, dimensions, scalar or array arguments, container sizes, histories of container operations, convolver configurations and updates',
     'A wrong stride or length only shows for particular array layouts, often as a silent access beyond an array; the existing tests use freshly allocated contiguous arrays.',
     ['src/python/efl/vector_functions.cpp', 'src/python/efl/vector_conversions.cpp', 'src/python/efl/basic_matrix.cpp', 'src/python/efl/basic_vector.cpp', 'src/python/rbbl/core_convolver_uniform.cpp', 'src/python/rbbl/multichannel_convolver_uniform.cpp', 'src/python/rbbl/biquad_coefficient.cpp'],
     [('array functions', 'src/python/efl/vector_functions.cpp'), ('containers', 'src/python/efl/basic_matrix.cpp'), ('convolvers', 'src/python/rbbl/multichannel_convolver_uniform.cpp')],
     ['array contents', 'errors raised', 'memory accesses'],
     'random array layouts and call histories from Python under AddressSanitizer against numpy reference results')

prop('P25', 'Parameters, scenes and descriptions built in Python carry exactly their values',
     'Every parameter, filter description, routing table, scene object, pose and loudspeaker array created, changed, copied, sent, written as text or read from text in Python holds exactly the given values, and copies and messages are independent of their source. '
     'Iterators, views and references to parts stay valid as long as they are used, whatever happens to the variable that held the whole. '
     'Indices, dimensions, types and texts that do not fit are refused with an error, leave the object as it was and never touch memory outside it.',
     ['inputs', 'histories'],
     'all parameter types and protocols, values, dimensions, array layouts, histories of changes, copies, iterations and conversions, valid and invalid texts and indices',
     'The Python interface repeats every data type of the library by hand, and errors in it (a lost return value, a dangling reference, a swapped name) show only for particular calls and lifetimes; the existing tests use a few of them.',
     ['src/python/pml/matrix_parameter.cpp', 'src/python/pml/signal_routing_parameter.cpp', 'src/python/pml/listener_position.cpp', 'src/python/rbbl/biquad_coefficient.cpp', 'src/python/objectmodel/object_vector.cpp', 'src/python/panning/loudspeaker_array.cpp', 'src/python/panning/vbap.cpp'],
     [('parameters', 'src/python/pml/matrix_parameter.cpp'), ('scene objects', 'src/python/objectmodel/object_vector.cpp'), ('loudspeaker arrays', 'src/python/panning/loudspeaker_array.cpp')],
     ['values read back', 'texts', 'errors raised', 'memory accesses'],
     'random histories of Python calls under AddressSanitizer against plain Python models and round trips')

prop('P26', 'Signal flows written in Python behave like flows in C++',
     'A signal flow built from Python, out of built-in and Python-written atomic and composite components, computes on every block and every array layout exactly the composition of its components, with parameters and messages arriving in order at the block where they were sent. '
     'Errors in Python code or in a request (wrong shapes, types, names, ports, connections, exceptions inside components) are reported as errors, name the cause, and leave other components and flows usable. '
     'Ports, components, connections, messages, iterators and locks obtained in Python stay valid while Python refers to them, in whatever order the objects are dropped.',
     ['inputs', 'histories', 'faults'],
     'all graphs of components, sample types, block sizes, port widths, array layouts, parameter histories, faults raised by Python components and orders in which Python drops its objects',
     'Lifetimes and array layouts in Python are unbounded histories that a fixed test samples a few times, mostly with contiguous arrays and flows that live until the end.',
     ['src/python/visr/component.cpp', 'src/python/visr/audio_port.cpp', 'src/python/visr/composite_component.cpp', 'src/python/visr/parameter_port.cpp', 'src/python/rrl/audio_signal_flow.cpp', 'src/python/rrl/flexible_buffer_wrapper.cpp', 'src/python/rcl/gain_vector.cpp'],
     [('components in Python', 'src/python/visr/component.cpp'), ('audio ports', 'src/python/visr/audio_port.cpp'), ('running a flow', 'src/python/rrl/audio_signal_flow.cpp')],
     ['output samples', 'received parameters', 'errors raised', 'memory accesses'],
     'random component graphs and object lifetimes from Python under AddressSanitizer against a Python model of the composition')

prop('P27', 'Binaural rendering follows scene, head orientation and measured responses',
     'Every binaural renderer of the toolkit outputs for each ear the sum over its inputs of level, delay and impulse response for the direction relative to the listener\'s head, where orientations about several axes, static or tracked, are compensated exactly. '
     'This holds for the nearest or interpolated responses of the given grid, for Ambisonics signals and objects of any order, for virtual loudspeakers with or without a static late part, and for every combination of options; the arrays and options passed by the caller are left unchanged. '
     'Spherical harmonics, their rotations, data files and tracking devices yield the defined values, however the bytes of a device are split.',
     ['inputs', 'histories', 'configurations'],
     'all grids, responses, delays, scenes, orientations, orders, routings, option combinations, histories of scene and tracking updates, byte streams and data files',
     'The toolkit has no test at all; wrong signs, ears, weights or stale buffers show only for orientations about several axes and particular option combinations.',
     ['src/python/packages/visr_bst/controllers/dynamic_hrir_controller.py', 'src/python/packages/visr_bst/controllers/virtual_loudspeaker_controller.py', 'src/python/packages/visr_bst/renderers/virtual_loudspeaker_renderer.py', 'src/python/packages/visr_bst/renderers/dynamic_hrir_renderer.py', 'src/python/packages/visr_bst/hoa_components/hoa_object_encoder.py', 'src/python/packages/visr_bst/util/spherical_harmonics_rotation.py', 'src/python/packages/visr_bst/tracker/hdm_tracker.py', 'src/python/packages/visr_bst/util/read_sofa_file.py'],
     [('selection of responses', 'src/python/packages/visr_bst/controllers/dynamic_hrir_controller.py'), ('Ambisonics', 'src/python/packages/visr_bst/renderers/hoa_binaural_renderer.py'), ('virtual loudspeakers', 'src/python/packages/visr_bst/renderers/virtual_loudspeaker_renderer.py')],
     ['output samples', 'controller messages', 'arrays read from files', 'decoded orientations'],
     'random scenes, grids and orientation histories rendered in steady state against direct convolution with the responses of an independent geometric model')

prop('P28', 'Sound-card interfaces carry every block between server and processing',
     'For every configuration an audio interface either reports an error and leaves nothing behind at the audio server, or opens exactly the requested device, ports and connections with the requested channel counts, sampling frequency and block size. '
     'While it is started and a callback is registered, every cycle of the server calls the processing exactly once with the captured samples of each channel and plays exactly what it returns, in whatever sample layout; errors in the processing are reported to the server and never escape. '
     'Interfaces can be started, stopped, restarted and destroyed in any order, several at a time and with cycles occurring at any moment, and never touch ports, streams or clients that have been released.',
     ['inputs', 'histories', 'faults', 'schedules'],
     'all device lists, JSON configurations, channel counts, block sizes, histories of start/stop/callback changes, failures of the server and positions of cycles between the calls',
     'The tests cannot open an audio device, and no machine has all the devices, names, failures and timings that users meet.',
     ['src/libaudiointerfaces/jack_interface.cpp', 'src/libaudiointerfaces/portaudio_interface.cpp', 'src/libaudiointerfaces/audio_interface_factory.cpp', 'src/libaudiointerfaces/audio_interface.hpp'],
     [('JACK', 'src/libaudiointerfaces/jack_interface.cpp'), ('PortAudio', 'src/libaudiointerfaces/portaudio_interface.cpp')],
     ['samples passed in both directions', 'calls to the audio server', 'errors reported'],
     'model-based testing of histories against stand-ins for the JACK and PortAudio servers that record misuse and inject failures and cycles')

prop('P29', 'Standalone applications obey their options and process audio accordingly',
     'Options given on the command line, in short or long form, or in an option file, with any quoting the file format allows, yield exactly the given values; the command line takes precedence, and anything unknown, malformed, missing or contradictory ends the application with an error message and without starting audio. '
     'An application opens the audio interface with the requested or documented default channel counts, sampling frequency, period and interface options, and starts and stops it once. '
     'While running, the matrix convolver outputs for each channel the sum of its routed, filtered and scaled inputs with the filters of the given files at the given indices, the feedthrough applications pass their inputs on, and the loudspeaker renderers render the scene received from the network for the given loudspeaker array and listener position.',
     ['inputs', 'configurations'],
     'all command lines and option files, sets of filter files and index offsets, routings, loudspeaker arrays, scenes and input signals',
     'The applications have no tests, and their options combine with each other, with the notation used and with the files they name.',
     ['src/libapputilities/options.cpp', 'src/apps/matrix_convolver/main.cpp', 'src/apps/matrix_convolver/init_filter_matrix.cpp', 'src/apps/feedthrough/signal_flow.cpp', 'src/apps/baseline_renderer/main.cpp', 'src/apps/visr_renderer/main.cpp', 'src/apps/time_frequency_feedthrough/main.cpp', 'src/libsignalflowspython/visr_renderer.cpp'],
     [('options', 'src/libapputilities/options.cpp'), ('filter files', 'src/apps/matrix_convolver/init_filter_matrix.cpp'), ('renderers', 'src/apps/baseline_renderer/main.cpp')],
     ['exit status and messages', 'configuration of the audio interface', 'output samples'],
     'generated command lines, option files and data files run through the applications on a simulated audio interface, compared with models of options, filter tables and direct convolution')

prop('P30', 'Parameter values are created, copied and assigned faithfully by type',
     'For every parameter type of the library, a value created from its type id and a matching configuration has the configured dimensions and its documented initial content, and a configuration of another kind is refused. '
     'Copies are equal and independent: changing, assigning to or destroying one value never alters another, assigning a value of the same type and dimensions (also itself) copies it completely, and a value of another type is refused without effect. '
     'Configurations compare equal exactly if their dimensions are equal, type ids and protocol names are unique, and unknown types or protocols are refused.',
     ['histories', 'inputs'],
     'all parameter types, dimensions and contents, and all sequences of creation, change, cloning, assignment and destruction',
     'Every message between components is a copy made through these type-erased operations; a shallow or partial copy of one of the 35 types shows only when values of that type are changed after being copied.',
     ['src/libvisr/typed_parameter_base.hpp', 'src/libvisr/parameter_factory.cpp', 'src/libvisr/communication_protocol_factory.cpp', 'src/libpml/initialise_parameter_library.cpp', 'src/libpml/time_frequency_parameter.hpp', 'src/libpml/object_vector.cpp', 'src/libpml/signal_routing_parameter.cpp'],
     [('creation', 'src/libvisr/parameter_factory.cpp'), ('copying and assignment', 'src/libvisr/typed_parameter_base.hpp'), ('protocols', 'src/libvisr/communication_protocol_factory.cpp')],
     ['contents read through the accessors', 'errors reported'],
     'stateful model-based testing of populations of values of all parameter types through the type-erased interface')

prop('P31', 'Python components run unchanged inside C++ programs, and fail cleanly',
     'For every component class found in a Python module, package or nested namespace on the given search paths, and every combination of positional and keyword arguments, a C++ program can instantiate, connect, run and destroy it - also several at once and from different threads - with the ports, samples and parameters the Python code defines. '
     'A module, class, argument list or constructor that is not usable, and an exception raised while processing, is reported as a C++ exception without crash and without effect on the surrounding flow, which continues to work. '
     'Modules are searched in all the listed directories, and the Python runner executes a component as its command line describes.',
     ['inputs', 'faults', 'schedules'],
     'all module layouts, search paths, constructor arguments, ports, chains of components, threads, and failures in import, construction and processing',
     'Signal flows prototyped in Python are run in C++ renderers this way; the interpreter lock and object lifetimes on the error paths are invisible to tests that only run working components in one thread.',
     ['src/libpythoncomponents/wrapper.cpp', 'src/libpythonsupport/load_module.cpp', 'src/libpythonsupport/initialisation_guard.cpp', 'src/libpythonsupport/gil_ensure_guard.cpp', 'src/apps/python_runner/main.cpp', 'src/apps/python_runner/options.cpp'],
     [('wrapper', 'src/libpythoncomponents/wrapper.cpp'), ('module loader', 'src/libpythonsupport/load_module.cpp'), ('python_runner', 'src/apps/python_runner/main.cpp')],
     ['output samples and messages', 'errors reported', 'number of live Python components', 'contents of the Python search path', 'process survival'],
     'generated Python modules and component chains run from a C++ host against a matrix model, with injected failures in modules, arguments, constructors and processing, and concurrent threads')

prop('P32', 'Generated array configurations describe exactly the given loudspeakers',
     'For every set of loudspeaker positions, labels, channels, gains, delays, virtual loudspeakers with routings, equalisers, subwoofers and triplets, the configuration file written by the Python generator can be read by the library and yields exactly these values, in plane and 3D arrays, Cartesian and spherical notation, and with distance compensation as documented. '
     'If no triangulation is given, the one written is a closed triangulation on the convex hull of the loudspeaker directions that includes every loudspeaker. '
     'Arguments that contradict one another or cannot be expressed are refused with an error before anything is written; the arguments are never changed, and coordinate conversions are inverse to one another.',
     ['inputs', 'configurations'],
     'all array sizes, positions, element types and containers of the arguments, combinations of optional arguments, and single contradictions among them',
     'The generator has no tests, although the shipped array files are made with it and every renderer depends on them; each optional argument has its own notation, and a wrong file is noticed only by listening.',
     ['src/python/packages/loudspeakerconfig/createArrayConfigFile.py', 'src/python/packages/loudspeakerconfig/createArrayConfigFromSofa.py', 'src/python/packages/loudspeakerconfig/geometry_functions.py', 'src/libpanning/LoudspeakerArray.cpp'],
     [('generator', 'src/python/packages/loudspeakerconfig/createArrayConfigFile.py'), ('reader', 'src/libpanning/LoudspeakerArray.cpp')],
     ['values read back by the loudspeaker array class', 'files written', 'errors reported', 'arguments after the call'],
     'round trip of generated arguments through the configuration file, the library\'s reader and geometric invariants of the triangulation; single-fault generation for refusals')

prop('P33', 'The metadata adapter transforms scenes exactly as its configuration describes',
     'For every valid configuration of processors in sequences, conditional branches, source merges and sink splits, and every history of object and control messages, the scene returned is the one obtained by applying the configured operations to the latest state of each object that has not expired: each object goes to exactly the branches its group selects, branches do not influence one another, merges keep the first branch that has the object, and control messages change just the addressed parameter. '
     'Results depend on messages only - not on earlier results, nor on whether numbers arrive as text - and malformed or unknown control messages have no effect on processing. '
     'Configurations with structural errors are refused, processors that cannot be created are skipped, and as a signal flow component the adapter gives the same results for text and object ports and sends output only when due.',
     ['inputs', 'histories', 'configurations'],
     'all trees of processing elements, object types and notations, message sequences, control messages over both protocols, expiry times and single faults in a configuration',
     'The package has only example scripts; object identity through in-place processors and branches, state carried between calls, and the structural checks all show up only for particular trees and message histories.',
     ['src/python/packages/metadapter/core/metadapter_engine.py', 'src/python/packages/metadapter/core/composite_conditional.py', 'src/python/packages/metadapter/core/composite_source_merge.py', 'src/python/packages/metadapter/core/composite_split_sink.py', 'src/python/packages/metadapter/condition_processors/select_group_condition.py', 'src/python/packages/metadapter/merge_processors/branch_order_merge_processor.py', 'src/python/packages/metadapter/visrintegration/component.py'],
     [('engine', 'src/python/packages/metadapter/core/metadapter_engine.py'), ('conditional', 'src/python/packages/metadapter/core/composite_conditional.py'), ('component', 'src/python/packages/metadapter/visrintegration/component.py')],
     ['scenes returned', 'objects printed by sinks', 'errors reported', 'messages and object vectors on the component ports'],
     'stateful generation of configuration trees and message histories against a functional model of every element; single-fault generation for refusals')

prop('P34', 'Scheduled gain changes of objects happen sample-accurately and independently',
     'For every history of gain messages, block length and number of objects and loudspeakers, each output sample is the sum of the object signals weighted by gains that follow, object by object, the current linear change: it starts at its scheduled sample from the gains reached there, ends exactly after its duration (at once for a zero duration), and then stays constant. '
     'A message replaces the change stored for the objects it addresses and leaves all others, and everything before its start time, untouched; a start in the past is reported once and ignored. '
     'Messages are values: copies and assignments of any dimension are equal and independent, and wrong dimensions are refused.',
     ['inputs', 'histories'],
     'all sequences of messages relative to the running and stored changes of every object, block lengths, dimensions, start times and durations including none and very long ones',
     'The tests use single objects or disjoint changes; whether a change stays correct depends on how its start relates to the running change, the stored one and the block boundary at the time the message arrives.',
     ['src/libpanningdsp/panning_gain_matrix.cpp', 'src/libpanningdsp/panning_matrix_parameter.cpp', 'src/libpanningdsp/panning_gain_matrix.hpp'],
     [('gain changes', 'src/libpanningdsp/panning_gain_matrix.cpp'), ('messages', 'src/libpanningdsp/panning_matrix_parameter.cpp')],
     ['output samples', 'errors reported', 'contents of messages'],
     'stateful generation of message histories against an exact piecewise linear model of every gain')

prop('P35', 'Control values decode exactly; null sources are silent; terminators transparent',
     'For every sequence of OSC datagrams, the decoder of scalar values emits, in order, exactly the values of the well-formed messages whose first argument has its type, bit for bit, and nothing for any other message or malformed datagram, neither of which disturbs later ones. '
     'A null source writes zeros to every channel in every period, wherever its channels are connected. '
     'A terminator built for, or derived from, any parameter port satisfies the connection check without altering what the port sends or receives, and one for another type, protocol or dimension is rejected.',
     ['inputs', 'histories'],
     'all datagrams (single messages, nested bundles, malformed or arbitrary bytes), value types, numbers of datagrams per period; all widths and period lengths; all parameter types, protocols and dimensions',
     'No test sends a datagram to the decoder, and the tests of null sources and terminators use one configuration each.',
     ['src/librcl/scalar_osc_decoder.cpp', 'src/librcl/null_source.cpp', 'src/librcl/parameter_input_terminator.cpp', 'src/librcl/parameter_output_terminator.cpp'],
     [('OSC values', 'src/librcl/scalar_osc_decoder.cpp'), ('silence', 'src/librcl/null_source.cpp'), ('terminators', 'src/librcl/parameter_input_terminator.cpp')],
     ['messages in the output queue', 'output samples', 'errors at construction', 'values seen through the ports'],
     'generated OSC packets from an independent encoder, damaged packets, and generated signal flows against a direct model')
