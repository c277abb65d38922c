"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, os

P = []


def prop(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    P.append({
        'id': id, 'title': title, 'statement': statement,
        'quantifier': {'over': over.split(), 'text': text},
        'why_tests_cant': why,
        'anchors': {
            'files': files.split(),
            'state': [dict(zip(('name', 'meaning', 'where'), s)) for s in state],
            'mechanism': [dict(zip(('name', 'where'), m)) for m in mech],
            'observe_at': list(observe),
            'hook_needed': None,
        },
    })


prop('C01', 'Links are symmetric, exclusive and all-or-nothing',
     'After any sequence of connect and disconnect calls, made from either end and whether they succeed or are refused, '
     'an input names a source exactly when that source lists the input among its destinations, and no input ever has two '
     'sources. A refused call (incompatible ends, input already taken, link not present) leaves every link as it was.',
     'histories inputs', 'every history of connect / disconnect calls over every pair of connectable kinds',
     'Tests connect a handful of pairs in one order and look at the success case; the rule is about every call history, '
     'both ends of the link and every refusal path.',
     'klang/connections.py klang/block.py klang/audio/mixer.py klang/composite.py klang/sequencer.py',
     [('make_connection / break_connection', 'klang/connections.py'), ('connect / disconnect', 'klang/connections.py')],
     [('incomingConnection', 'the one source of an input', 'klang/connections.py'),
      ('outgoingConnections', 'the destinations of an output', 'klang/connections.py')],
     ['Input.connected, Output.connected, are_connected()'])

prop('C02', 'Only compatible ends can be connected',
     'Connecting succeeds exactly when the link runs from an output or relay to an input or relay of the same kind (both value '
     'or both message), no matter from which end the call is made; every other pairing is refused with the '
     'incompatible-connection error before any link is changed. The same holds for disconnecting.',
     'inputs configurations', 'all ordered pairs of the nine connectable kinds and every connect / disconnect entry point',
     'Tests sample some of the 81 pairs and mostly through one entry point.',
     'klang/connections.py', [('is_valid_connection / validate_connection', 'klang/connections.py')], (),
     ['IncompatibleConnection'])

prop('C03', 'Every message reaches every destination once, in order',
     'A message sent from an output is put exactly once, at the back, into the inbox of every input connected to it, directly '
     'or through any chain of relays, and into no other inbox. Inboxes are read oldest first and each message is handed out '
     'once; an inbox is bounded and when full it gives up its oldest message, never the newest. Asking for the latest message '
     'returns the newest one and empties the inbox. A message mixer passes on every message of each of its inputs once, in the order in which '
     'that input got them.',
     'histories programs', 'every history of sends and receives over every fan-out and relay chain',
     'Tests use one or two destinations and a few messages, and never fill an inbox through relays.',
     'klang/connections.py klang/note_effects.py', [('MessageOutput.send, _MessageQueue', 'klang/connections.py'), ('MessageMixer', 'klang/note_effects.py')],
     [('queue', 'pending messages of one input', 'klang/connections.py')], ['receive(), receive_latest()'])

prop('C04', 'Reading a value input shows its source, else its own value',
     'Reading a connected value input or relay yields the current value of its source, through any chain of relays and through '
     'either of the two reading interfaces; reading an unconnected one yields the value last set on it. Setting a value never '
     'changes any other end of a link, and a value set through either writing interface is seen by both reading interfaces.',
     'histories programs', 'every history of value writes, connects and disconnects and every relay chain',
     'Tests read a few values right after setting them, mostly through one of the two interfaces.',
     'klang/connections.py', [('value / get_value / set_value', 'klang/connections.py')],
     [('_value', 'own fallback value', 'klang/connections.py')], ['Input.value, Input.get_value()'])

prop('C05', 'The execution order is complete, unique and producer first',
     'The execution order computed from some starting blocks contains each starting block and each block reachable from them '
     'over links in either direction exactly once, and nothing else. A block is placed only after every block that feeds it, '
     'unless the link between them was identified as closing a feedback loop; the identification never alters the network itself.',
     'programs inputs', 'every block network, including disconnected parts, several starting blocks and feedback loops',
     'Tests use a few small hand-drawn networks.',
     'klang/execution.py klang/graph.py klang/block.py',
     [('traverse_network, determine_execution_order', 'klang/execution.py'),
      ('find_back_edges, remove_back_edges, topological_sorting', 'klang/graph.py'),
      ('input_neighbors / output_neighbors', 'klang/block.py')], (), ['determine_execution_order()'])

prop('C06', 'Temporarily unpatched links always come back',
     'Temporarily unpatching a block removes every link between it and other blocks, in both directions, and on leaving the scope, '
     'normally or because of an error, exactly the links that were removed are restored. Recomputing the inner '
     'order of a composite therefore never changes how it is wired.',
     'crash_points programs', 'every wiring of the block and every way of leaving the scope, including errors inside it',
     'Tests leave the scope normally on one small chain.',
     'klang/composite.py klang/block.py', [('temporarily_unpatch', 'klang/composite.py'),
                                           ('collect_connections', 'klang/block.py')], (), ['are_connected()'])

prop('C07', 'Composites run their inner blocks and never themselves',
     'Updating a composite that stores an inner order updates every block of that order once, in that order, and no other; a composite '
     'or a synthesizer that drives its inner blocks or voices itself updates each of them exactly once. The stored order never contains the composite itself, '
     'nor blocks outside it. Whenever one of the composites changes its own inner wiring, during construction or later (adding a channel, '
     'applying or resetting a micro rhythm), its inner order is recomputed afterwards.',
     'programs histories', 'every composite of the library and every wiring method',
     'Tests run a few composites and do not look at the order after rewiring.',
     'klang/composite.py klang/sequencer.py klang/audio/effects.py klang/audio/voices.py klang/execution.py',
     [('Composite.update / update_internal_exec_order', 'klang/composite.py'), ('execute', 'klang/execution.py')],
     [('execOrder', 'inner execution order', 'klang/composite.py')], [])

prop('C08', 'One audio cycle: inject, tick the clock, run once, collect',
     'In every audio buffer cycle, recorded input is put into the network first, then the shared clock is set to the play time, then '
     'all blocks are run exactly once, and only then the output is collected. The play time advances by exactly one buffer '
     'duration per cycle, a requested recording gains exactly the chunk that was played, and the engine reports completion in '
     'the first cycle whose end reaches the requested duration, and never before. Without audio blocks the main loop sets the '
     'clock before it runs all blocks once.',
     'schedules histories', 'every number of cycles, with and without input, fade-out, recording and channel mismatch',
     'Tests never drive the callback of the engine with a sound card or over many cycles.',
     'klang/audio/klanggeber.py klang/klang.py klang/clock.py', [('stream_callback', 'klang/audio/klanggeber.py'),
                                                                  ('run_klang', 'klang/klang.py')],
     [('playTime', 'current play time', 'klang/audio/klanggeber.py')], [])

prop('C09', 'Sound card, stream and socket are released on every exit',
     'Once a live session has acquired the sound card, every way of ending it (completion, interruption from the keyboard, or an error while checking '
     'channels, opening, starting or running the stream) releases the sound card, and a stream that was opened is stopped and '
     'closed before that. A WAV file opened for reading is closed on every exit, including a refused file. '
     'A network or MIDI block that goes away closes its socket or port.',
     'crash_points fault_sequences', 'every point at which a step after acquisition can fail',
     'Tests have no sound card and inject no faults.',
     'klang/audio/klanggeber.py klang/audio/wavfile.py', [('run_audio_engine', 'klang/audio/klanggeber.py'),
                                                           ('load_wave', 'klang/audio/wavfile.py')], (), [])

prop('C10', 'No invalid note can be built',
     'Building a note, directly or from a dictionary or JSON text, yields a note only if its pitch is at least 0 and below 128, its '
     'velocity is between 0 and 1 inclusive and its frequency, given or derived from the pitch, is not negative; otherwise '
     'a value error is raised. Silencing a note keeps pitch and frequency and sets the velocity to exactly zero, and every note is either on or off, never both.',
     'inputs', 'all pitches, velocities, frequencies, dictionaries and JSON texts',
     'Tests try a few boundary values through the constructor only.',
     'klang/messages.py', [('Note.__new__, from_dict, from_json, silence, on, off', 'klang/messages.py')], (), [])

prop('C11', 'What is sent over the network can be decoded',
     'Every note and every array sent over the network carries a type tag that the receiver recognises and exactly the fields '
     'the receiver reads back, each filled from the corresponding attribute; the receiver rebuilds each attribute from the field of the same meaning. Values without a '
     'known tag pass through unchanged.',
     'inputs', 'all notes, all arrays and all other JSON values',
     'Tests send a few objects; agreement of the writer with the reader is a relation between two pieces of code.',
     'klang/network.py klang/messages.py', [('array_to_dict / array_from_dict / klang_object_hook', 'klang/network.py'),
                                            ('to_dict / from_dict', 'klang/messages.py')], (), [])

prop('C12', 'A malformed datagram never stops the receiver',
     'No datagram, however malformed (not text, not JSON, a note or array description with missing or bad fields), '
     'makes a network input block raise, and the objects of all other datagrams received in the same cycle are still delivered. '
     'Receiving stops only when no datagram is waiting.',
     'inputs fault_sequences', 'all byte strings, in any sequence of datagrams',
     'Tests send well-formed objects and one malformed text.',
     'klang/network.py', [('JsonCourier.receive_objects, receive_all_from', 'klang/network.py')], (), [])

prop('C13', 'The ring buffer never leaves its bounds',
     'After every ring buffer operation the read / write position lies below the current length; the length never exceeds the allocated '
     'capacity, neither at construction nor later, and is refused with an error that leaves the buffer unchanged if it does. '
     'A chunk larger than the guaranteed head room is refused before anything is written.',
     'inputs histories', 'all lengths, capacities, chunk sizes and operation histories',
     'Tests use a few fixed sizes.',
     'klang/ring_buffer.py', [('RingBuffer', 'klang/ring_buffer.py')],
     [('pos', 'read / write position', 'klang/ring_buffer.py')], [])

prop('C14', 'Delays read the past before they overwrite it',
     'Each chunk a delay, comb or echo filter puts out is computed from the samples that were stored before the current chunk was written, and '
     'each processed chunk is stored exactly once. A new delay line holds silence, and its ring buffer keeps every stored sample at the place from which it is read one delay length later, also where reading or writing passes the end of the ring. The native and the pure Python versions of a filter combine the same two '
     'quantities (input and delayed sample, scaled by the gain) for output and for storage.',
     'inputs histories', 'all chunks, delay lengths and gains',
     'Tests compare a few short signals and do not exercise the delay block for longer than one buffer.',
     'klang/audio/effects.py klang/audio/filters.py klang/ring_buffer.py klang/audio/_filters.c',
     [('Delay.update', 'klang/audio/effects.py'), ('filter()', 'klang/audio/filters.py'),
      ('*_filter', 'klang/audio/_filters.c')], (), [])

prop('C15', 'The native extensions are memory safe',
     'For every call and every argument, the native extensions check each allocation or conversion that can fail before using its '
     'result, release every object reference and memory they own exactly once on every path, and store parsed arguments only '
     'into variables of the size the format asks for. They read input samples only from arrays converted to contiguous double data of one dimension, '
     'and never divide by a zero ring length.',
     'inputs fault_sequences', 'all arguments, lengths and allocation failures',
     'Tests never let an allocation fail, do not watch reference counts and pass well-formed arrays only.',
     'klang/audio/_filters.c klang/audio/_envelope.c',
     [('RingBufferFilter_new, *_filter, parse_input_array', 'klang/audio/_filters.c'),
      ('Envelope_init, Envelope_sample', 'klang/audio/_envelope.c')], (), [])

prop('C16', 'Both envelopes follow the same stage machine',
     'An envelope leaves a stage only along off to attack (gate on, or retrigger from any stage), attack to decay, decay to sustain (to release when looping), release '
     'to off (to attack when looping and still gated), and from attack, decay or sustain to release on gate off; the off and sustain stages '
     'last until the gate changes. An envelope is active exactly outside its off stage. The native and the pure Python implementation take the same step for the same stage, gate, loop, enabled and retrigger state.',
     'histories', 'all stages, flags and gate histories',
     'Tests walk one or two cycles of one implementation.',
     'klang/audio/_envelope.c klang/audio/envelope.py', [('Envelope_gate, Envelope_single_sample', 'klang/audio/_envelope.c'),
                                                       ('gate, determine_next_stage', 'klang/audio/envelope.py')],
     [('stage', 'current stage', 'both')], [])

prop('C17', 'Envelope parameters are checked, stored and take effect',
     'Setting an attack, decay, sustain, release or overshoot value of the native envelope to something that is not a number or '
     'is out of range raises a value error and changes nothing; setting a legal value stores it under the same name it is read back '
     'from and immediately recomputes the derived coefficients, as does construction; the samples of each stage depend on the parameters of that stage. In the pure Python envelope every change of '
     'stage installs the sample source of the new stage with that stage\'s own time and target parameters.',
     'inputs histories', 'all values and all five parameters',
     'Tests set a few legal values.',
     'klang/audio/_envelope.c klang/audio/envelope.py', [('Envelope_set_*', 'klang/audio/_envelope.c'),
                                                       ('switch_stage, update_sample_generator', 'klang/audio/envelope.py')], (), [])

prop('C18', 'Blocks never modify buffers they do not own',
     'No block, effect or helper changes in place an array it received through an input or argument, nor a shared constant or '
     'memoised array; in-place accumulation only ever happens on a buffer the code has just created or copied. A buffer a block keeps and '
     'changes in place is never published itself, and a view of it is not used any more after it was changed.',
     'programs inputs', 'every block, every wiring that lets two readers share one buffer',
     'Tests read each output once; corruption shows only when several readers share a buffer.',
     'klang/audio/mixer.py klang/audio/effects.py klang/audio/synthesizer.py klang/audio/sampling.py klang/audio/oscillators.py klang/audio/klanggeber.py klang/audio/helpers.py',
     [('update()', 'all blocks')], (), [])

prop('C19', 'Memoised results are immutable',
     'Whatever a memoising function of the library hands out cannot be modified by a caller in a way that changes what later callers get: memoised arrays are '
     'read-only and memoised sequences are immutable.',
     'histories', 'every memoised function and every caller history',
     'Tests call each function once or twice and do not modify results.',
     'klang/audio/helpers.py klang/audio/envelope.py klang/audio/effects.py klang/audio/panning.py',
     [('functools.lru_cache users', 'klang/audio/*.py')], (), [])

prop('C20', 'Note values are converted before use as time or rate',
     'Every public parameter or input documented as "seconds or note value" (or "Hz or note value") is converted to seconds '
     '(or Hz) exactly once before it takes part in any comparison with a limit or any computation, and durations are never converted as rates or the other way round. '
     'Duration, phase frequency and note length of a sequence follow from its number of steps, grid note, beat value and tempo.',
     'inputs configurations', 'every parameter that accepts note values, both number and note value',
     'Tests pass plain numbers almost everywhere.',
     'klang/audio/effects.py klang/audio/oscillators.py klang/arpeggiator.py klang/music/tempo.py',
     [('compute_duration, compute_rate', 'klang/music/tempo.py'), ('Sequence.duration', 'klang/sequencer.py')], (), [])

prop('C21', 'Every accepted option is implemented, any other refused',
     'For every option given by name or from a fixed set of values (panning mode, note scheduling policy, arpeggio order, resampler type, clock edge, LFO shape, '
     'sub-sampling factor), every accepted value leads to a defined result of its own and any other value is refused with an error, at the latest when the '
     'option is first used; no accepted name falls through without a result, and the defaults of a constructor are never refused by it.',
     'configurations', 'all option values and all constructors with defaults',
     'Tests use some of the names.',
     'klang/audio/panning.py klang/audio/synthesizer.py klang/arpeggiator.py klang/audio/sampling.py klang/audio/sync.py klang/audio/effects.py',
     [('panning_amplitudes', 'klang/audio/panning.py'), ('NoteScheduler', 'klang/audio/synthesizer.py'), ('arpeggio_index_permutation', 'klang/arpeggiator.py'),
      ('initialize_resampler', 'klang/audio/sampling.py'), ('Clock', 'klang/audio/sync.py')], (), [])

prop('C22', 'Copies of voices and sources keep every setting',
     'A deep copy of an oscillator, envelope or voice is of the same class and has every constructor setting of the original, each taken from the attribute '
     'that holds it, and shares no mutable part with it.',
     'configurations inputs', 'every class with its own copy protocol and every parameter',
     'Tests copy a few instances with default settings.',
     'klang/audio/oscillators.py klang/audio/envelopes.py klang/audio/voices.py',
     [('__deepcopy__', 'as listed')], (), [])

prop('C23', 'Every note that was started is stopped',
     'Blocks that generate note-offs (note lengthener, note limiter, arpeggiator, polyphonic synthesizer) remember each note-on they let through, '
     'send exactly one note-off for it with the same pitch when its time is up, it is displaced, replaced by the next one or released, and send no note-off for a note they did not '
     'start. A released note reaches the voice playing it even if it was started earlier in the same cycle.',
     'histories schedules', 'all note histories and clock steps',
     'Tests play a few notes, one per cycle.',
     'klang/note_effects.py klang/arpeggiator.py klang/audio/synthesizer.py klang/audio/voices.py',
     [('NoteLengthener, MaxNotes', 'klang/note_effects.py'), ('Arpeggiator.update', 'klang/arpeggiator.py'),
      ('PolyphonicSynthesizer.process_note', 'klang/audio/synthesizer.py')], (), [])

prop('C24', 'Held notes stay ordered and addressed by pitch',
     'The set of held notes of a monophonic synthesizer always yields the note its policy asks for: every insertion and removal '
     'preserves the ordering structure, and keys follow the policy (newest, oldest, lowest, highest). Arpeggio notes stay sorted and duplicate free by pitch, the play '
     'permutation is refreshed after every change and the play position always stays inside it.',
     'histories', 'all histories of note-ons and note-offs',
     'Tests try short histories per policy.',
     'klang/audio/synthesizer.py klang/arpeggiator.py',
     [('NoteScheduler', 'klang/audio/synthesizer.py'), ('Arpeggio', 'klang/arpeggiator.py')], (), [])

prop('C25', 'Every documented option of a block takes effect',
     'Every parameter a block constructor accepts is stored, passed on or otherwise used, and every setting it stores is read by the code that '
     'produces the block\'s result; a setting made at construction is never silently replaced by a default. '
     'Every optional argument of a function or method is read by it.',
     'configurations', 'every block constructor and parameter, and every optional argument, of the library',
     'Tests construct most blocks with defaults.',
     'klang/', [('__init__', 'all blocks')], (), [])

prop('C26', 'Blocks never use members that do not exist',
     'No code path of the library reads an attribute, method or module member that does not exist on the object it is applied to, calls a '
     'library function or constructor with arguments it does not accept, or does arithmetic with a connection object where '
     'its value is meant. Describing an object as text in particular never fails.',
     'programs configurations', 'every function of the library',
     'Tests never execute many of these paths (no sound card, no keyboard, no string conversion).',
     'klang/', [('all modules', 'klang/')], (), [])

prop('C27', 'Keyboard events are debounced and keys reach notes in pairs',
     'However often the system repeats a key press or release, each physical press produces exactly one press event and each release '
     'of a pressed key exactly one release event. On the musical keyboard, releasing a note key silences the pitch that pressing it started, '
     'even if octave or tuning were changed in between, and octave, velocity and tuning change only on presses of their own keys. In '
     'every octave and at every velocity that can be reached every note key plays a valid, audible note, number keys choose the temperament '
     'of that number, and remaining keys are passed on to the second output exactly if that was asked for.',
     'histories', 'all histories of press, repeat and release over all keys',
     'Tests have no keyboard and simulate none of these histories.',
     'klang/keyboard.py', [('on_press / on_release / on_key_event', 'klang/keyboard.py')],
     [('keyState', 'pressed keys', 'klang/keyboard.py')], [])

prop('C28', 'Looking up music data by name is exact first, never a guess',
     'Looking up a scale, chord, interval or tuning by name returns the entry of exactly that name if there is one, otherwise the '
     'single entry of zero distance, and raises a value error, never anything else, for an unknown or ambiguous name.',
     'inputs', 'all names and all tables',
     'Tests look up a few names.',
     'klang/util.py klang/music/scales.py klang/music/chords.py klang/music/intervals.py klang/music/tunings.py',
     [('find_item', 'klang/util.py')], (), [])

prop('C29', 'The music data tables are well formed and mean what they say',
     'Every scale in the database consists of positive steps that add up to one octave, every tuning has twelve rising values inside '
     'an octave, every chord rises in whole semitones from its root (the two chords whose notes are counted from the key, neapolitan and '
     'northern lights, need not start at zero), every interval is a ratio of at least one, no name appears twice and every row becomes the '
     'entry of its name. Encoding a scale and decoding its code are inverse, the note value constants obey their dotting rules, inverting a '
     'chord moves its outer note by an octave, a temperament sounds its reference pitch at A and doubles every octave, and a note name is '
     'either the pitch its letter, accidentals and octave say or a value error.',
     'inputs', 'every row of every table',
     'Tests check a few rows.',
     'klang/music/data klang/music/note_values.py klang/music/pitch.py',
     [('CSV tables', 'klang/music/data')], (), [])

prop('C30', 'Audio files are refused or converted, never misread',
     'Only 16 bit files are accepted, samples are converted from integers to floats exactly once and back exactly once, each '
     'conversion refuses data that already has the target representation, and the scale of each direction is derived from the integer type '
     'itself. A playing sample never reads outside its trimmed range and, when looping, continues after its end with its start.',
     'inputs histories', 'all files, sample arrays, trim ranges and read sizes',
     'Tests read one file.',
     'klang/audio/wavfile.py klang/audio/sampling.py', [('load_wave, convert_*', 'klang/audio/wavfile.py'),
                                                         ('Sample', 'klang/audio/sampling.py')], (), [])

# --- behaviour no sound static argument in reach decides ------------------
prop('C31', 'Oscillators are phase continuous and in tune',
     'The output of every oscillator is continuous across buffers and has the requested frequency, for constant and varying frequency inputs.',
     'inputs histories', 'all frequencies and buffer sequences', 'Numerical over long histories.',
     'klang/audio/oscillators.py', [('sample_phase', 'klang/audio/oscillators.py')])
prop('C32', 'Panning and mixing keep levels',
     'Constant power panning keeps the total power constant, pan laws attenuate the centre by the given level, and mixing n channels never exceeds the range of one.',
     'inputs', 'all pan levels, gains and signals', 'Numerical.',
     'klang/audio/panning.py klang/audio/mixer.py', [('panning_amplitudes', 'klang/audio/panning.py')])
prop('C33', 'Euclidean rhythms spread pulses evenly',
     'A Euclidean rhythm of k pulses in n slots has n slots, exactly k pulses, and gaps that differ by at most one.',
     'inputs', 'all k <= n', 'Tests compare a few known rhythms.',
     'klang/music/rhythm.py', [('_compute_bitmap', 'klang/music/rhythm.py')])
prop('C34', 'Envelope curves reach their levels on time',
     'Attack, decay and release reach their targets after the configured times for all overshoots, in both implementations.',
     'inputs', 'all parameter values', 'Numerical.',
     'klang/audio/envelope.py klang/audio/_envelope.c', [('curve_samples', 'klang/audio/envelope.py')])
prop('C35', 'Prime search returns the next primes',
     'The prime search returns the smallest primes not below the start, in increasing order, whatever was searched before.',
     'inputs histories', 'all starts and histories', 'Tests check small starts.',
     'klang/primes.py', [('find_next_primes', 'klang/primes.py')])
prop('C36', 'Pitch names and frequencies convert both ways',
     'Converting a pitch to its name and back yields the pitch; frequencies double every octave in every tuning.',
     'inputs', 'all pitches', 'Round trip over runtime values.',
     'klang/music/pitch.py klang/music/tunings.py', [('pitch_2_note_name', 'klang/music/pitch.py')])
prop('C37', 'Notation shows every note in its bar',
     'Rendered notation contains every note once, with bar lines at each bar and beams never crossing a group boundary.',
     'inputs', 'all note sequences and metres', 'Tests compare a few pictures.',
     'klang/music/note_formatting.py', [('format_notes', 'klang/music/note_formatting.py')])
prop('C38', 'Audio is delivered in time',
     'Each cycle finishes within one buffer duration, so that playback never drops out.',
     'schedules', 'all networks and machines', 'Timing.',
     'klang/audio/klanggeber.py', [('stream_callback', 'klang/audio/klanggeber.py')])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, p['id']
        f.write(json.dumps(p) + '\n')
print(len(P), 'properties')
