"""The properties: properties.jsonl and MANIFEST.json are written from here (python3 lib/props.py)."""
import json, os

P = []
NA = []


def prop(pid, title, statement, over, text, why, files, mech, state=(), observe=(), note="", technique="", level="model_checking"):
    P.append(dict(id=pid, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  state=state, observe=observe, note=note, technique=technique, level=level))


def na(pid, title, statement, over, text, why, files, mech, reason):
    prop(pid, title, statement, over, text, why, files, mech)
    NA.append((pid, reason))


TLC_SEQ = "TLA+ specification checked with TLC; its behaviours replayed on the code, recorded histories validated against it"
BOTH = ("TLC enumerates every history of the specification within small constants and each transition is replayed on the "
        "real code; longer generated histories recorded from the code are accepted or rejected step by step by the same "
        "specification. Nothing is claimed beyond the explored histories.")

TLC_TRACE = "TLA+ specification checked with TLC: histories recorded from the code are validated against it"
TRACE = ("Histories generated from a seed are run on the real code and recorded; TLC accepts or rejects every step of them by the "
         "specification. Nothing is claimed beyond the recorded histories.")

# ---------------------------------------------------------------- MIDI queue
prop("Q01", "MIDI event queue: every event delivered exactly once, in time order",
     "Events put into a MIDI queue come out ordered by sample offset, with events of equal offset in the order they were added, "
     "whatever mix of single and batch insertion was used. Range queries return exactly the events inside the half-open range "
     "without removing them, processing a range removes exactly what it delivered, and removing by type, shifting by an offset "
     "and clearing touch exactly the events they name.",
     ["histories", "inputs"], "all sequences of queue operations with any mix of offsets, equal offsets, negative offsets and batch sizes",
     "The tests sample a handful of insertion orders with distinct offsets; order among equal offsets and what remains after a partial removal depend on the whole history.",
     ["pkg/midi/queue.go", "pkg/midi/events.go"],
     [("insertion with a lazily applied stable sort", "pkg/midi/queue.go Add/AddMultiple/ensureSorted"), ("range processing", "pkg/midi/queue.go ProcessEvents")],
     note=BOTH, technique=TLC_SEQ)

# ---------------------------------------------------------------- voices
prop("V01", "Voice allocator: note-to-voice bookkeeping agrees with the voices",
     "In polyphonic mode every note that was switched on and not yet ended or stolen sounds on exactly one voice, one voice is never shared by two held notes, "
     "and a note-off releases exactly the voices playing that note. A voice that ended by itself, was stolen, stopped by a reset or cut off by a lower "
     "polyphony limit is free again and never receives the old note's release.",
     ["histories"], "all sequences of note on/off, voices ending by themselves, polyphony changes and resets",
     "The tests play a few notes in order; stale bookkeeping only shows after particular reuse, steal and end orders.",
     ["pkg/framework/voice/allocator.go"], [("note/voice assignment", "pkg/framework/voice/allocator.go NoteOn/NoteOff/SetMaxVoices/Reset")],
     note=BOTH, technique=TLC_SEQ)
prop("V02", "Voice stealing picks the voice its mode names",
     "When all voices within the polyphony limit are busy, a new note takes the voice its stealing mode designates (oldest, quietest, highest, lowest note, or none), stopping it first, "
     "and a free voice is always used before any stealing. With stealing disabled the new note is refused and all sounding notes are left alone.",
     ["histories"], "all sequences of notes, ages and amplitudes for every stealing mode and polyphony limit",
     "Tests try one situation per mode; ties, released voices and age order after reuse need arbitrary histories.",
     ["pkg/framework/voice/allocator.go"], [("voice stealing", "pkg/framework/voice/allocator.go findVoiceToSteal")], note=BOTH, technique=TLC_SEQ)
prop("V03", "Sustain pedal holds released notes and lets go of exactly those",
     "While the sustain pedal is down a note-off does not release the note; lifting the pedal releases exactly the notes whose keys are up and no key that is still, or again, held. "
     "A note-on with velocity zero acts as note-off and pedal movement arrives by MIDI controller 64 with threshold 64.",
     ["histories"], "all interleavings of notes, re-pressed keys and pedal movement",
     "Tests press each key once; re-pressing and stealing while the pedal is down is a history property.",
     ["pkg/framework/voice/allocator.go"], [("sustained set", "pkg/framework/voice/allocator.go NoteOff/SetSustainPedal")], note=BOTH, technique=TLC_SEQ)
prop("V04", "Mono, legato and unison modes follow their contracts",
     "Mono mode sounds one voice that follows the latest note and stops with it; legato changes pitch without retriggering while a key is held and triggers when none is; "
     "unison drives all voices within the limit with the same note and releases them together.",
     ["histories"], "all sequences of note, pedal, mode and limit changes",
     "Each mode is tested with one or two notes; overlapping notes, note number 0 and self-ended voices are not.",
     ["pkg/framework/voice/allocator.go"], [("modes", "pkg/framework/voice/allocator.go NoteOn/NoteOff/SetMode")], note=BOTH, technique=TLC_SEQ)

# ---------------------------------------------------------------- process context
prop("C01", "Parameter automation: every change applied, in sample order",
     "Parameter changes collected for a block keep their sample offsets, are applied in offset order with same-offset changes in arrival order, "
     "and after applying them each parameter holds its last value. Changes for unknown parameters are ignored and starting a new block forgets the old changes.",
     ["histories", "inputs"], "all sequences of changes, sorts, resets and reads over several parameters and blocks",
     "Tests use a few changes at distinct offsets.",
     ["pkg/framework/process/context.go"], [("stable sort and application", "pkg/framework/process/context.go SortParameterChanges")], note=BOTH, technique=TLC_SEQ)
prop("C02", "Block events: what goes in is what the processor and the host see",
     "Input events are delivered to the processor in time order restricted to the asked range, output events are kept apart from input events, "
     "and clearing removes input events only once.",
     ["histories"], "all sequences of event input, output, queries and clearing over several blocks",
     "Tests exercise a single block.",
     ["pkg/framework/process/context.go", "pkg/midi/queue.go"], [("event queues of a block", "pkg/framework/process/context.go")], note=BOTH, technique=TLC_SEQ)
prop("C03", "Processing context exposes exactly the host's buffers",
     "Pass-through copies each input channel to the output channel of the same index and silences or leaves others as documented, the number of samples is that of the host's buffers, "
     "scratch buffers are as long as the block and separate from the audio, and no sample outside the block is touched.",
     ["inputs", "configurations"], "all channel counts and block lengths up to the configured maximum, over several blocks",
     "Tests use one stereo layout.",
     ["pkg/framework/process/context.go", "pkg/framework/process/helpers.go"], [("buffer handling", "pkg/framework/process/context.go")], note=BOTH, technique=TLC_SEQ)

# ---------------------------------------------------------------- parameters
prop("P01", "A parameter's value is always within its range",
     "Whatever is written (out of range, infinite or not a number), a parameter's normalised value stays within 0..1 and its plain value within its range; "
     "an in-range value is stored exactly and read back by the next read. Conversion between plain and normalised is monotone, clamped and inverse on the range.",
     ["inputs", "histories"], "all values and write sequences over ranges including empty and reversed ones",
     "Tests sample a few values and never non-finite ones.",
     ["pkg/framework/param/parameter.go", "pkg/framework/param/builder.go"], [("clamping", "pkg/framework/param/parameter.go SetValue/Normalize")], note=BOTH, technique=TLC_SEQ)
prop("R01", "Parameter registry lists every parameter once, in order",
     "Parameters are listed by index in the order they were first added, each exactly once; adding an identifier again keeps the first parameter; lookup by index and by identifier agree, "
     "and out-of-range or unknown lookups return nothing.",
     ["histories"], "all sequences of additions with repeated identifiers and lookups",
     "Tests add a few parameters once.", ["pkg/framework/param/registry.go"], [("order list", "pkg/framework/param/registry.go")], note=BOTH, technique=TLC_SEQ)
prop("R02", "Automatic parameter identifiers are unique and stable",
     "An automatically assigned identifier is never one in use, reserved or handed out before; registering a name again keeps its identifier and position; explicit identifiers are honoured or refused with an error "
     "that leaves the registry unchanged, and lookup by name finds the latest parameter of that name.",
     ["histories"], "all sequences of automatic, explicit, builder and reserved registrations",
     "Tests register each style separately.", ["pkg/framework/param/registry_auto.go"], [("identifier counter", "pkg/framework/param/registry_auto.go")], note=BOTH, technique=TLC_SEQ)

prop("R03", "Queues, registries and values used by several threads act as one at a time",
     "Whatever the interleaving, calls on an event queue, a parameter registry or a parameter's value from several threads return what they return one after the other in some order that keeps the order of each thread "
     "and puts a call that ended before another began before it; and no two of them race on memory.",
     ["schedules", "programs"], "all interleavings of all programs of queue, registry and value calls",
     "Tests start a few goroutines and look at the end; a lost update or an unsorted read needs one moment of one interleaving.",
     ["pkg/midi/queue.go", "pkg/framework/param/registry.go", "pkg/framework/param/registry_auto.go", "pkg/framework/param/parameter.go"],
     [("queue lock", "pkg/midi/queue.go EventQueue.mu"), ("registry lock", "pkg/framework/param/registry.go Registry.mu"), ("names", "pkg/framework/param/registry_auto.go"), ("value", "pkg/framework/param/parameter.go")],
     note=TRACE, technique=TLC_TRACE)

# ---------------------------------------------------------------- state
prop("T01", "Plug-in state: save and load round trip, damaged input changes nothing",
     "A saved state restores every parameter and the custom data exactly, parameters unknown to the reader are skipped and missing ones keep their value. "
     "Loading truncated, foreign or newer-version data returns an error and changes no parameter, and a failing reader or writer is reported.",
     ["inputs", "fault_sequences", "histories"], "all parameter sets and values, every cut point of a saved state, every failing read or write",
     "Tests round-trip a few parameters and one corrupt header; every cut and fault point is a different input.",
     ["pkg/framework/state/manager.go"], [("state format", "pkg/framework/state/manager.go Save/Load")], note=BOTH, technique=TLC_SEQ)
prop("T02", "State saved while parameters change is still a loadable state",
     "A state saved while parameters are being set or added can be loaded again, and every value in it is one the parameter had during the save.",
     ["schedules"], "all placements of parameter writes and additions between the writes of a save",
     "Tests save when nothing else happens.",
     ["pkg/framework/state/manager.go"], [("count and entries of a save", "pkg/framework/state/manager.go Save")],
     note="Changes are interleaved at each write the save performs; recorded histories are validated by TLC, with the observed image as data.", technique="TLA+ specification checked with TLC; recorded interleaved histories validated against it")
prop("S01", "Parameter smoothing moves towards the target and arrives",
     "A smoothed value moves monotonically towards its latest target without overshoot, reaches it, stops reporting movement there, and then stays. "
     "A parameter with smoothing returns its value when it is reset or enabled again, follows values set by plain or normalised value, and with smoothing off returns the value set.",
     ["histories", "inputs"], "all sequences of targets, rates, types, resets and reads",
     "Tests check one ramp per type.",
     ["pkg/framework/param/smoother.go"], [("smoothing recurrence", "pkg/framework/param/smoother.go Next")], note=BOTH, technique=TLC_SEQ)

# ---------------------------------------------------------------- buses
prop("B01", "Bus configurations report the buses they were built with",
     "Every bus added to a configuration is reported exactly once, in order, with its own channel count, direction, type, name and activation, and counts agree with the list. "
     "Activating one bus changes no other; building again or using a builder further leaves configurations built before alone.",
     ["histories", "configurations"], "all builder and query sequences over audio and event buses of both directions",
     "Tests check the predefined layouts.",
     ["pkg/framework/bus/bus.go", "pkg/framework/bus/builder.go", "pkg/framework/bus/templates.go"], [("bus lists", "pkg/framework/bus/bus.go"), ("builder", "pkg/framework/bus/builder.go Build")], note=BOTH, technique=TLC_SEQ)
prop("X01", "Multi-bus processing reaches the right bus and touches no other",
     "Main and side-chain access return the first main and auxiliary bus, iteration visits each active bus once in order with its own channels, "
     "pass-through copies like-numbered buses and channels, clearing silences all outputs, and input buffers are never written.",
     ["configurations", "histories"], "all bus layouts, activation patterns and operation sequences",
     "Tests use one or two layouts.", ["pkg/framework/process/multibus.go"], [("bus lookup and copying", "pkg/framework/process/multibus.go")], note=BOTH, technique=TLC_SEQ)

# ---------------------------------------------------------------- DSP building blocks
prop("F01", "DSP chains run their processors in order and bypass none but themselves",
     "A chain passes audio through every processor it holds, in the order they were added, exactly once per block; a bypassed chain leaves the audio untouched and does not advance its processors. "
     "Parallel chains sum the branches of the same input, resetting a chain resets every member, and a chain built earlier is not changed by using its builder further.",
     ["histories", "configurations"], "all sequences of adding, building, processing, bypassing and resetting mono, stereo and parallel chains",
     "Tests process one block through one small chain.",
     ["pkg/framework/dsp/chain.go"], [("serial and parallel processing", "pkg/framework/dsp/chain.go Chain, ParallelChain, StereoChain"), ("builders", "pkg/framework/dsp/chain.go Builder")],
     note=BOTH, technique=TLC_SEQ)
prop("F02", "Adapted processors and ready-made chains do what their parts do",
     "A compressor, gate, DC blocker or noise generator adapted for a chain changes each buffer as the processor itself does, sample by sample, and resets with it; noise is added to the buffer at the adapter's level. "
     "The ready-made simple chain is a DC blocker; the ready-made dynamics chain is a gate at -40 dB with a range of -60 dB followed by a compressor of ratio 4 above -20 dB with an attack of 10 and a release of 100 milliseconds.",
     ["inputs", "histories"], "buffers of any length, resets and levels changed in between",
     "Tests only look whether a chain can be built.",
     ["pkg/framework/dsp/adapters.go"], [("adapters", "pkg/framework/dsp/adapters.go CompressorAdapter, GateAdapter, DCBlockerAdapter, NoiseAdapter"), ("ready-made chains", "pkg/framework/dsp/adapters.go CreateSimpleChain, CreateDynamicsChain")],
     note=TRACE, technique=TLC_TRACE)
prop("D10", "Buffer, mix, gain and pan operations compute their formulas on every sample",
     "Clearing, copying, adding, scaling, mixing, clipping, peak search, fades, panning, balance and width compute their documented value for every sample of the block and write nothing outside it. "
     "Hard and soft clipping keep the sign and the limit, centre and hard pan positions have the gains their law names, and inputs that are not the destination stay unchanged.",
     ["inputs"], "all block lengths, sample values on a grid, gains, positions and operation sequences over shared buffers",
     "Tests use one or two buffers of four samples per function.",
     ["pkg/dsp/buffer.go", "pkg/dsp/mix/mix.go", "pkg/dsp/gain/gain.go", "pkg/dsp/pan/pan.go"],
     [("sample loops", "pkg/dsp/buffer.go, pkg/dsp/mix, pkg/dsp/gain, pkg/dsp/pan")], note=BOTH, technique=TLC_SEQ)
prop("D01", "Delay lines return exactly the sample written that long ago",
     "A delay line, comb, all-pass or multi-tap delay returns the sample written the configured number of samples ago (interpolated between neighbours for fractional delays) with feedback and mix as documented, "
     "before, at and after every wrap of its buffer. Reset silences it, and block and single-sample processing agree.",
     ["histories", "inputs"], "all sequences of writes, reads, delay, feedback and mix changes and resets, past several wraps of the buffer",
     "Tests check one impulse; wrap positions, fractional reads at the wrap and state left by a reset need longer histories.",
     ["pkg/dsp/delay/delay.go"], [("circular buffer", "pkg/dsp/delay/delay.go Line.Read/Write"), ("comb, all-pass, taps", "pkg/dsp/delay/delay.go")],
     note=BOTH, technique=TLC_SEQ)

prop("D05", "Audio processors: same output for any block split, entry point, setting order",
     "The output of every audio processor depends on its settings and its input alone: cutting the same input into blocks differently, processing it sample by sample, in place or by any other entry point of the same kind, "
     "and making the same settings in another order all give the same output samples. Blocks of zero samples change nothing.",
     ["inputs", "configurations", "histories"], "all block boundaries, entry points and setting orders and points in time, for every filter, effect, dynamics processor, reverb, oscillator, envelope follower and adapter",
     "Tests process one block by one entry point; they never compare two ways of doing the same.",
     ["pkg/dsp/filter", "pkg/dsp/distortion", "pkg/dsp/dynamics", "pkg/dsp/envelope", "pkg/dsp/modulation", "pkg/dsp/reverb", "pkg/dsp/oscillator", "pkg/dsp/utility", "pkg/framework/dsp"],
     [("per-block loops and in-place processing", "Process/ProcessBuffer/ProcessBlock/ProcessStereo of every processor"), ("cached coefficients", "Set* of every processor")],
     note=TRACE, technique=TLC_TRACE)
prop("D06", "Audio processors: reset equals new; instances do not affect each other",
     "After Reset a processor produces exactly the output a new one with the same settings produces, whatever it processed or was set to before. "
     "Instances of the same kind that are used alternately produce what each would produce alone.",
     ["histories"], "all pasts before a reset (settings, audio, mono and stereo use) and all interleavings of instances",
     "Tests check that a field is zero after Reset or that one silent sample follows, not that nothing of the past remains.",
     ["pkg/dsp/filter", "pkg/dsp/distortion", "pkg/dsp/dynamics", "pkg/dsp/envelope", "pkg/dsp/modulation", "pkg/dsp/reverb", "pkg/dsp/oscillator", "pkg/dsp/utility", "pkg/framework/dsp"],
     [("Reset", "Reset of every processor")], note=TRACE, technique=TLC_TRACE)
prop("D07", "Audio processors: channel independence, dry signal, silence, boundedness",
     "Channels a processor treats separately do not leak into each other, and linked channels treat left and right alike. Dry mix passes the input unchanged, silence in gives silence out where the processor adds no signal of its own, "
     "and for every setting the output stays finite and bounded and dies away after the input has ended.",
     ["inputs", "configurations", "histories"], "all channel signals, settings in range and long inputs followed by silence",
     "Tests feed the same signal to both channels, few settings and short inputs.",
     ["pkg/dsp/filter", "pkg/dsp/distortion", "pkg/dsp/dynamics", "pkg/dsp/envelope", "pkg/dsp/modulation", "pkg/dsp/reverb", "pkg/dsp/oscillator", "pkg/dsp/utility", "pkg/framework/dsp"],
     [("per-channel state", "ProcessStereo and channel arguments"), ("feedback paths", "pkg/dsp/reverb, pkg/dsp/modulation")], note=TRACE, technique=TLC_TRACE)
prop("D08", "Audio processing allocates no memory",
     "Processing audio, by the block or by the sample, mono or stereo, allocates no memory with any settings, so that it can run on a real-time thread.",
     ["configurations"], "all processors, settings and entry points",
     "Benchmarks report allocations but nothing fails when there are some.",
     ["pkg/dsp/filter", "pkg/dsp/distortion", "pkg/dsp/dynamics", "pkg/dsp/envelope", "pkg/dsp/modulation", "pkg/dsp/reverb", "pkg/dsp/oscillator", "pkg/dsp/utility", "pkg/framework/dsp"],
     [("scratch memory", "pkg/dsp/reverb/fdn.go, pkg/framework/dsp")], note=TRACE, technique=TLC_TRACE)

# ---------------------------------------------------------------- envelopes and dynamics
prop("D02", "Envelope generators move through their stages along exponential curves",
     "An ADSR envelope rises exponentially from where it is to 1 after a trigger, then falls to the sustain level, stays there until released and falls to exactly 0, "
     "where it is idle; each stage uses its own time constant (at least a millisecond), settings changed at any time take effect from the next sample, and the reported stage and activity agree "
     "with what comes out. An AR envelope does the same without decay and sustain. Single values, blocks and multiplication of a buffer are the same sequence.",
     ["histories", "inputs"], "all sequences of triggers, releases, resets, setting changes and any number of values in between",
     "Tests walk one envelope through its stages once; retriggering, releasing and changing settings in every stage is a history property.",
     ["pkg/dsp/envelope/envelope.go"], [("stages", "pkg/dsp/envelope/envelope.go ADSR.Next, AR.Next"), ("setting changes", "pkg/dsp/envelope/envelope.go SetSustain/SetADSR")],
     note=TRACE, technique=TLC_TRACE)
prop("D09", "Envelope detectors follow the level by their mode, type and times",
     "A detector follows the absolute value (peak, peak hold) or the RMS over its window of its input, upwards by the attack and downwards by the release time with the coefficients of its type; "
     "peak modes jump to a peak far above the envelope, peak hold waits for the hold time before releasing, and the envelope never leaves the range of its input. Single samples, blocks and side-chain detection "
     "are the same; the value in decibels is the same value. The follower does this for the absolute value.",
     ["histories", "inputs"], "all input streams, block splits, modes, types and setting changes",
     "Tests feed constants or one burst; what an envelope does next depends on all input and settings so far.",
     ["pkg/dsp/envelope/detector.go", "pkg/dsp/envelope/envelope.go"], [("detection", "pkg/dsp/envelope/detector.go Detect"), ("following", "pkg/dsp/envelope/envelope.go Follower")],
     note=TRACE, technique=TLC_TRACE)
prop("D03", "Noise gate: thresholds, hysteresis, hold, gain ramps and reported state agree",
     "A closed gate opens when the level (of the loudest channel, or of the side-chain high-pass) exceeds the threshold; an open gate closes once the level has been below the threshold less the hysteresis for the hold time; "
     "a closing gate reopens above the threshold. Its gain moves exponentially with the attack time to 1 and with the release time to the range, is the same for all channels, and the reported state, openness and reduction describe exactly that.",
     ["histories", "inputs"], "all input streams and setting changes in any state of the gate",
     "Tests run a loud and a quiet stretch; dropping out during attack, hold and release and changing settings there are not reached.",
     ["pkg/dsp/dynamics/gate.go"], [("gate state machine", "pkg/dsp/dynamics/gate.go Process/ProcessStereo"), ("settings", "pkg/dsp/dynamics/gate.go SetRange/SetHold")],
     note=TRACE, technique=TLC_TRACE)
prop("D04", "Compressor, limiter, expander apply their curves; the ceiling holds",
     "What a compressor, limiter or expander takes away is its static curve (threshold, ratio, knee, range, in decibels) at the level its envelope has for the loudest channel or the side chain so far, and is what it reports. "
     "All channels get the same gain, makeup included; with lookahead the sound is delayed by exactly that many samples. Nothing leaves a limiter above its ceiling, and no processor amplifies by its curve.",
     ["histories", "inputs"], "all input streams, stereo, mono and side-chain use, and all settings and setting changes",
     "Tests look at static gains of constant signals; onsets, knees at every ratio, lookahead with stereo and setting changes on the way are not sampled.",
     ["pkg/dsp/dynamics/compressor.go", "pkg/dsp/dynamics/limiter.go", "pkg/dsp/dynamics/expander.go"],
     [("static curves", "computeGain"), ("detection, lookahead and gain", "Process/ProcessStereo/ProcessSidechain"), ("ceiling", "pkg/dsp/dynamics/limiter.go ceilingGain")],
     note=TRACE, technique=TLC_TRACE)

prop("P02", "Parameter texts: what is displayed is the value and reads back as it",
     "The text a parameter shows for a value is that value in its unit, rounded to the digits shown, and parsing that text (in any of the spellings the parser names) gives the value back within the precision shown; "
     "a list shows the entry a value stands for, every entry is reachable, and the number of steps is one less than the number of entries. A text without a meaning is refused and changes nothing; "
     "templates declare defaults inside their range.",
     ["inputs", "configurations"], "all formatters, parsers and parameter templates over all values of their ranges and all texts",
     "Tests format and parse a handful of values; round trips at range ends, at rounding boundaries and for every list entry are not sampled.",
     ["pkg/framework/param/formatters.go", "pkg/framework/param/builders.go", "pkg/framework/param/filter_types.go", "pkg/framework/param/builder.go"],
     [("formatting", "pkg/framework/param formatters"), ("parsing", "pkg/framework/param parsers"), ("lists", "pkg/framework/param Choice")],
     note=TRACE, technique=TLC_TRACE)
prop("P03", "A parameter is what its builder was told, in whatever order",
     "A parameter made by any of the ready-made constructors or from scratch has the identity, names, unit, range, steps, flags, default and formatting its builder was told; what is said later replaces what was said before, "
     "independent things can be said in any order, a default is limited to the range the parameter has in the end, and a built parameter starts at its default. "
     "Using the builder further does not change the parameters it has built. "
     "Values are shown and read back by the formatter the parameter has, its own or the common one, and setting a plain value keeps it in the range.",
     ["configurations", "inputs"], "all constructors and all sequences of builder calls, values and texts",
     "Tests call each builder method once, in one order, with a default inside the range; orders and repetitions are not sampled.",
     ["pkg/framework/param/builder.go", "pkg/framework/param/builders.go", "pkg/framework/param/parameter.go"],
     [("builder", "pkg/framework/param/builder.go Build"), ("ready-made parameters", "pkg/framework/param/builders.go"), ("formatting", "pkg/framework/param/parameter.go FormatValue, ParseValue")],
     note=TRACE, technique=TLC_TRACE)
prop("D13", "Oscillators, LFO and noise follow phase, frequency and wave through changes",
     "An oscillator's output is the function of its wave at its phase, and its phase advances by frequency over sample rate per sample, through frequency, wave and phase changes, for negative frequencies and across cycles; "
     "band-limited waves follow their recursion and stay bounded. An LFO adds depth and offset to its wave, holds random values for a cycle, resets when synced and is its own (no state shared between instances); "
     "noise stays in range with the colour it is set to.",
     ["histories", "inputs"], "all histories of settings, resets and sample runs",
     "Tests look at one cycle of one wave; phase continuity over changes and cycles and independence of instances are not sampled.",
     ["pkg/dsp/oscillator/oscillator.go", "pkg/dsp/modulation/lfo.go", "pkg/dsp/utility/noise.go"],
     [("waves", "pkg/dsp/oscillator/oscillator.go Process"), ("low-frequency waves", "pkg/dsp/modulation/lfo.go"), ("noise", "pkg/dsp/utility/noise.go")],
     note=TRACE, technique=TLC_TRACE)
prop("D11", "Filters realise their design in every channel, through every change",
     "A biquad computes, in each channel, the difference equation of the bilinear transform of its type's analogue prototype at its frequency, quality and gain; the state-variable filter's outputs satisfy "
     "its zero-delay equations, and its modes, mixes and morphs are made of them; a DC blocker removes a constant offset by its recursion. Changing settings keeps the past, a reset clears it, "
     "channels do not touch each other, blocks of any size and single samples are the same, and designed filters are stable.",
     ["histories", "inputs"], "all designs, input streams, channel counts, block splits and setting changes",
     "Tests look at the response to one signal for a few designs; coefficients at every type, frequency, quality and gain and the past across changes are not sampled.",
     ["pkg/dsp/filter/biquad.go", "pkg/dsp/filter/svf.go", "pkg/dsp/utility/dcblocker.go"],
     [("biquad designs and recursion", "pkg/dsp/filter/biquad.go"), ("state-variable filter", "pkg/dsp/filter/svf.go ProcessSample, MultiModeSVF.Process"), ("DC blockers", "pkg/dsp/utility/dcblocker.go")],
     note=TRACE, technique=TLC_TRACE)
prop("D12", "Distortions follow their curves, hold, quantise and dither, each channel alone",
     "A waveshaper applies its curve to the driven input; its soft curves rise with the input, keep its sign and stay within full scale, and folds stay within their threshold. A bit crusher filters, holds for the reduction factor "
     "and rounds to the nearest of its levels, with even dither of a step; tube and tape apply emphasis, hysteresis or compression, saturation (never falling as the input rises, never turning the sign) and de-emphasis, flutter "
     "reads what was recorded a few samples before. Mix and output scale the sum, settings are limited to their ranges, and each channel has its own past.",
     ["inputs", "histories"], "all inputs, settings, setting changes, resets and channel layouts",
     "Tests feed a few values through each curve; curve corners, hold counters across setting changes, dither statistics and the states of both channels are not sampled.",
     ["pkg/dsp/distortion/waveshaper.go", "pkg/dsp/distortion/bitcrusher.go", "pkg/dsp/distortion/tube.go", "pkg/dsp/distortion/tape.go"],
     [("curves", "pkg/dsp/distortion/waveshaper.go applyCurve"), ("hold, levels and dither", "pkg/dsp/distortion/bitcrusher.go"), ("tube and tape stages", "pkg/dsp/distortion/tube.go, tape.go processChannel")],
     note=TRACE, technique=TLC_TRACE)
prop("D14", "Interpolation meets the samples and its kernel; resampling counts right",
     "Linear, cubic, sinc and Lanczos interpolation give the samples at whole positions and their kernel's weighted sum between, at any position in or near a buffer; the all-pass interpolator is the first-order all-pass of its "
     "fraction; resampling reads each position i/ratio that lies inside the input, writes exactly as many values as it returns and leaves the rest of the output alone; smoothing goes the given part of the way.",
     ["inputs", "histories"], "all buffers, positions, window sizes and ratios",
     "The package has no tests; edges of buffers, windows larger than the buffer and ratios that end on a sample are where it fails.",
     ["pkg/dsp/interpolation/interpolation.go"],
     [("kernels", "pkg/dsp/interpolation/interpolation.go Cubic/Sinc/Lanczos"), ("resampling", "pkg/dsp/interpolation/interpolation.go Resample/ResampleCubic"), ("all-pass", "pkg/dsp/interpolation/interpolation.go AllPass.Process")],
     note=TRACE, technique=TLC_TRACE)
prop("D15", "Modulation effects move their sound as rate, depth, shape and offset say",
     "Tremolo, ring modulator, chorus, flanger, phaser, modulated delay and automatic panner give, sample by sample, what their documented parameters say of the input, the position of their oscillators and what they were given before: "
     "gains between 1 - depth and 1, a carrier's product, delays moved around their center and panned by voice, all-pass stages swept in octaves, gains of the panning law; the sides keep the offset set between them, settings may change at any time and are limited to their ranges, a reset starts anew.",
     ["histories", "inputs"], "all inputs and all sequences of settings, blocks and resets",
     "Tests look for any modulation at all in a steady tone at default settings; phases, voices, wraps and settings changed on the way are left out.",
     ["pkg/dsp/modulation", "pkg/dsp/delay/delay.go", "pkg/dsp/pan/pan.go"],
     [("amplitude", "pkg/dsp/modulation/tremolo.go, ringmod.go"), ("delays", "pkg/dsp/modulation/chorus.go, flanger.go; pkg/dsp/delay/delay.go ModulatedDelay"), ("phaser", "pkg/dsp/modulation/phaser.go"), ("panner", "pkg/dsp/pan/pan.go AutoPan")],
     note=TRACE, technique=TLC_TRACE)
prop("D16", "Reverbs are the networks of delays, feedback and damping they say they are",
     "Schroeder's reverb, Freeverb and the feedback delay network, and the comb, all-pass and damping filters they are made of, give sample by sample what their structure says: line lengths scaled to the sample rate, feedback from room size or decay, "
     "damping, an energy-keeping diffusion matrix, modulated taps, width across the sides, wet and dry shares, freezing and presets. Settings may change at any time and are limited to their ranges; a reset empties the lines and starts modulation anew.",
     ["histories", "inputs"], "all inputs, mono or stereo, and all sequences of settings, presets and resets",
     "Tests look for some tail and finite output at default settings; lengths, feedback paths, the sides' differences and settings changed on the way are left out.",
     ["pkg/dsp/reverb"],
     [("combs and all-passes", "pkg/dsp/reverb/schroeder.go"), ("freeverb", "pkg/dsp/reverb/freeverb.go"), ("network", "pkg/dsp/reverb/fdn.go")],
     note=TRACE, technique=TLC_TRACE)
prop("U01", "Parameter maps meet their ranges, invert each other and smooth without a jump",
     "Linear, exponential and curved maps take 0 and 1 to the ends of their range and follow their law between (linearly where the law has no meaning); unscaling inverts scaling; quantising gives the nearest of equal steps; "
     "clamping, skewing and bipolar maps are what they say. A smoothed value approaches its target exponentially with its time constant, jumps only when told to, and says truly whether it still moves.",
     ["inputs", "histories"], "all values, ranges in either direction, curves, steps and target changes",
     "Tests try a few values per map; empty, reversed and non-positive ranges, inverses and target changes under way are not sampled.",
     ["pkg/dsp/utility/parameter.go"],
     [("maps", "pkg/dsp/utility/parameter.go Scale*/Unscale*/Quantize*"), ("smoothing", "pkg/dsp/utility/parameter.go SmoothParameter")],
     note=TRACE, technique=TLC_TRACE)
prop("M01", "MIDI events are what they were made as; notes, names and frequencies agree",
     "An event reports the type, channel, sample offset and text it was made with; a pitch bend is its value in -1..1. A note's frequency is equal temperament around the tuning of A4, the note of a frequency is the nearest, "
     "and going from note to frequency and back gives the note; names count octaves from C with middle C as C4.",
     ["inputs"], "all events, notes, tunings and frequencies",
     "Tests check a few notes; all notes under all tunings and frequencies between notes are not sampled.",
     ["pkg/midi/events.go"],
     [("events", "pkg/midi/events.go Type/String"), ("notes and frequencies", "pkg/midi/events.go NoteToFrequency/FrequencyToNote/NoteNumberToName")],
     note=TRACE, technique=TLC_TRACE)

# ---------------------------------------------------------------- the plugin as its host sees it
prop("H01", "Every block reaches the plugin whole, in order, with its automation and notes",
     "A block handed over by the host reaches the processor as consecutive calls that cover each of its samples once, in every connected channel of every bus, with nothing left out or repeated, and what the processor writes is what "
     "the host gets. At every sample each parameter has the last value automation gave it up to there, each note arrives once, in the call and at the distance where it lies, and the transport is the one the host told. "
     "A component that is not processing leaves the buffers alone.",
     ["histories", "inputs"], "all blocks, bus layouts, unconnected channels, automation in any order of parameters and offsets, notes, and histories of setups and blocks",
     "There are no tests of the plugin wrapper: nothing drives it through its interface.",
     ["pkg/plugin/component.go", "pkg/plugin/wrapper_audio.go", "bridge/component.c", "bridge/bridge.c"],
     [("block mapping", "pkg/plugin/component.go Process"), ("splitting at automation", "pkg/plugin/component.go processSampleAccurate"), ("notes", "pkg/plugin/component.go processInputEvents")],
     note=TRACE, technique=TLC_TRACE)

prop("H02", "The host sees the plugin's parameters and buses exactly as they are",
     "For every parameter and index the host is told the same count, id, title, short title, unit, step count, default and flags as the plugin declares, cut to the field's size between characters and never beyond it, in UTF-16 whatever the script. "
     "Conversion between normalized and plain values and between values and text agrees with the parameter's own; setting a value from the host is what is read back, clamped to 0..1, by host and plugin alike. "
     "Bus counts, names, kinds, channel counts and arrangements are those declared; latency and tail are the plugin's; what doesn't exist is reported as failure and changes nothing.",
     ["inputs", "histories"], "all parameter declarations, names in any script and length, indices in and out of range, values, texts, bus layouts",
     "There are no tests of the plugin wrapper: nothing asks it anything through its interface.",
     ["pkg/plugin/component.go", "pkg/plugin/wrapper_controller.go", "pkg/plugin/wrapper_audio.go", "pkg/plugin/helpers.go", "bridge/component.c"],
     [("parameter information", "pkg/plugin/wrapper_controller.go GoEditControllerGetParameterInfo"), ("text", "pkg/plugin/helpers.go copyStringToTChar"), ("arrangements", "pkg/plugin/wrapper_audio.go")],
     note=TRACE, technique=TLC_TRACE)

prop("H03", "What a plugin saves into a host's stream comes back, and failures are reported",
     "A state saved through the component into the host's stream, and loaded into the same or another instance, brings back every parameter and the plugin's own data, however the host's stream cuts reads and writes into pieces. "
     "A stream that fails, stops early or takes only part is reported as a failure; a state that is damaged, foreign or cut short is refused or loaded, but never brings the host down nor allocates more than there is data. "
     "The typed readers and writers over a stream give back what was written, in order.",
     ["histories", "fault_sequences", "inputs"], "all parameter sets and custom data, piece sizes, places where the stream stalls or fails, corrupted bytes, seekable and other streams",
     "The tests save and load through in-memory buffers only; nothing puts a host's stream in between.",
     ["pkg/plugin/wrapper.go", "pkg/plugin/component.go", "pkg/vst3/stream.go", "pkg/framework/state/manager.go"],
     [("component state", "pkg/plugin/wrapper.go GoComponentSetState, GoComponentGetState"), ("stream", "pkg/vst3/stream.go StreamWrapper")],
     note=TRACE, technique=TLC_TRACE)

prop("H04", "Factory and instances live exactly as long as somebody holds them",
     "The factory and each instance exist as long as somebody holds a reference, are gone afterwards, and are never touched once freed; counts are right also when several threads take and give back. Every face of an instance leads to every other, "
     "with the same unknown; an instance comes out with the face asked for or not at all. Descriptions are cut to their fields and end with a zero. Instances share nothing: what is done to one shows in no other. "
     "A plugin that fails or panics is reported as failed and leaves the host running.",
     ["histories", "schedules", "fault_sequences"], "all histories of factory, creation, reference counting from any face, queries, failures, several instances and several threads",
     "There are no tests of the C bridge; lifetimes only show over histories of calls by several owners.",
     ["bridge/bridge.c", "bridge/component.c", "pkg/plugin/wrapper.go"],
     [("factory", "bridge/bridge.c GetPluginFactory, factory_release, factory_createInstance"), ("references", "bridge/component.c component_addRef, component_release"), ("panics", "pkg/plugin/wrapper.go recoverPanic")],
     note=TRACE, technique=TLC_TRACE)

prop("C04", "Musical position, beat place and beat length follow from the transport",
     "From what the host says of tempo, time signature and position, a plugin gets the bar, the beat within the bar, the place within the beat and the length of a beat; each is rounded down to the bar or beat it is in, also before the start of the project, "
     "and is zero when the host did not say what it takes to know it. A position is on a beat when it is near to one, before it or after it.",
     ["inputs"], "all tempos, time signatures, positions before and after the start, and combinations of what the host says",
     "Tests look at a few positions after the start in common meters; count-in, odd meters, missing and senseless information are left out.",
     ["pkg/framework/process/context.go"],
     [("bars and beats", "pkg/framework/process/context.go TransportInfo.GetBarsBeats"), ("place in the beat", "pkg/framework/process/context.go GetBeatPosition, IsOnBeat"), ("length", "pkg/framework/process/context.go GetSamplesPerBeat")],
     note=TRACE, technique=TLC_TRACE)

prop("L01", "Plugin callbacks fire once, in order, as told; class ids never change",
     "A plugin built on the base processor has each callback it set called once for each call of the host, with the sample rate, block size and state the host gave, in order (it is silenced before it is told that it is off), and its failures reach the host; "
     "callbacks it did not set are left out, and it processes only while processing is on. Its class id depends on its identifier alone, is the same in every process and version, a valid version 4 UUID, and different for different identifiers.",
     ["histories", "inputs", "fault_sequences"], "all histories of host calls with callbacks set, replaced, missing, failing or panicking; all identifiers",
     "Tests call single methods; the order over whole lives, failures, and ids stored by earlier projects are not sampled.",
     ["pkg/framework/plugin/processor.go", "pkg/framework/plugin/info.go", "pkg/plugin/component.go"],
     [("callbacks", "pkg/framework/plugin BaseProcessor, SimpleProcessor"), ("class id", "pkg/framework/plugin/info.go Info.UID"), ("host calls", "pkg/plugin/component.go SetActive, SetupProcessing")],
     note=TRACE, technique=TLC_TRACE)

prop("C05", "A block allocates nothing and prints nothing on the audio thread",
     "Whatever its size, channels, automation and transport, a block without MIDI events makes the wrapper and the processing context allocate nothing on Go's heap and write nothing to the standard output, whichever of the context's helpers the plugin works with; "
     "and the plugin sees every sample of it exactly once.",
     ["inputs", "programs"], "all block sizes, channel counts, numbers and orders of automation points, transports and uses of the context's helpers",
     "Tests check what comes out of a block, not what it costs; allocation depends on the compiler's escape analysis and on the number of points and channels.",
     ["pkg/framework/process/context.go", "pkg/framework/process/helpers.go", "pkg/plugin/component.go"],
     [("block", "pkg/plugin/component.go componentImpl.Process, processSampleAccurate"), ("context", "pkg/framework/process/context.go, helpers.go")],
     note=TRACE, technique=TLC_TRACE)

prop("C06", "A plugin sees the host's buses, samples and transport as the host has them",
     "Of the data of a block a plugin sees every bus and channel the host gave, each sample where the host's own memory has it, to read and to write, and no more: a bus or channel the host left out is none, nothing lies beyond the block's samples, "
     "channels that share memory share what is written; and every number and flag of the host's transport comes out as the host means it by the published interface.",
     ["inputs", "histories"], "all numbers of buses, channels, samples, shared or missing memory, and combinations of transport flags and numbers",
     "Tests cannot build a host's data; they cover nothing of the translation.",
     ["pkg/vst3/buffers.go"],
     [("buses", "pkg/vst3/buffers.go NewProcessDataWrapper, NewAudioBuffer"), ("transport", "pkg/vst3/buffers.go NewProcessContext")],
     note=TRACE, technique=TLC_TRACE)

prop("A01", "Level meters show peak, hold, RMS, balance and width of what they were given",
     "A peak meter shows the highest absolute sample, decaying by its rate since, and holds the highest peak for its hold time counted in samples, whatever the sizes of the blocks; an RMS meter shows the root mean square of the last window of samples, silence included; "
     "balance and width follow the energy of the channels, of mid and side; decibels are those of the level, down to minus infinity for none. A reset meter starts anew.",
     ["inputs", "histories"], "all signals, block sizes, settings changed on the way, and resets",
     "Tests feed single blocks of a steady signal; the state kept from block to block, ties of peaks, silence after a signal and one-sided signals are left out.",
     ["pkg/dsp/analysis/meters.go"],
     [("peak and hold", "pkg/dsp/analysis/meters.go PeakMeter"), ("RMS", "pkg/dsp/analysis/meters.go RMSMeter"), ("stereo", "pkg/dsp/analysis/correlation.go BalanceMeter, StereoWidthMeter")],
     note=TRACE, technique=TLC_TRACE)

prop("A02", "Correlation and phase scope show how the last samples of both channels go",
     "A correlation meter shows the correlation of the last window of samples of both channels, averaged by its smoothing, holds the worst it saw for its hold time, and tells mono, stereo and out of phase by it; a phase scope keeps the last points it was given, scaled and turned for its mode, "
     "oldest first, whatever the sizes of the blocks, and its statistics are theirs.",
     ["inputs", "histories"], "all pairs of signals, block sizes, unequal lengths of channels, settings changed on the way, and resets",
     "Tests feed identical, opposite and unrelated tones; windows that wrap, silent channels, holds and resets are left out.",
     ["pkg/dsp/analysis/correlation.go", "pkg/dsp/analysis/phasescope.go"],
     [("correlation", "pkg/dsp/analysis/correlation.go"), ("phase scope", "pkg/dsp/analysis/phasescope.go")],
     note=TRACE, technique=TLC_TRACE)

prop("A03", "The Fourier transform is exact and the spectrum analyzer shows what it gives",
     "The transform of a frame, with its window, is the discrete Fourier transform of its samples, its inverse gives them back, and the correlation computed by it is the correlation of the signals. The analyzer transforms a frame every hop, however its samples arrive, "
     "averages as it is set to, and frequencies, ranges, peaks, bands and octaves are those of the bins.",
     ["inputs", "histories", "configurations"], "all signals, sizes, windows, hops, averaging modes and frequency ranges, block sizes and resets",
     "Tests look for the highest bin of a tone; phases, bins at the edges, stale bins, averaging over frames and overlapping frames of uneven blocks are left out.",
     ["pkg/dsp/analysis/fft.go", "pkg/dsp/analysis/spectrum.go"],
     [("transform", "pkg/dsp/analysis/fft.go"), ("analyzer", "pkg/dsp/analysis/spectrum.go")],
     note=TRACE, technique=TLC_TRACE)

prop("A04", "Loudness is measured as ITU-R BS.1770 says, whatever the size of the blocks",
     "The momentary and the short-term loudness are those of the last 400 ms and of the last three seconds of the signal, weighted by frequency and by channel; the integrated loudness is the mean of the blocks above the absolute and the relative gate, "
     "and the loudness range the spread of those above the absolute one. None of them depends on how the signal is cut into blocks, and a reset starts anew.",
     ["inputs", "histories"], "all levels over time, numbers of channels, sample rates and block sizes, and resets",
     "Tests measure one steady tone; gates, channel weights, the lengths of the windows and the filter at low frequencies are left out.",
     ["pkg/dsp/analysis/meters.go"],
     [("weighting", "pkg/dsp/analysis/meters.go K-weighting filters"), ("windows and gates", "pkg/dsp/analysis/meters.go LUFSMeter.Process")],
     note=TRACE, technique=TLC_TRACE)

prop("A05", "Meters can be read by one thread while another feeds them",
     "A peak, RMS, loudness, correlation, balance or width meter, a spectrum analyser and a phase scope may be read, and their settings made again, by other threads while one thread feeds them: every figure read is the one after some whole number of the blocks, "
     "not older than one read before and never of blocks still to come; reading changes nothing of what is measured, and there are no data races, not even on what was handed out.",
     ["schedules"], "all interleavings of an audio thread's blocks and resets with reads and settings by displays",
     "Tests call the meters from one thread.",
     ["pkg/dsp/analysis/meters.go", "pkg/dsp/analysis/correlation.go", "pkg/dsp/analysis/spectrum.go", "pkg/dsp/analysis/phasescope.go"],
     [("locks", "pkg/dsp/analysis/meters.go PeakMeter.mu"), ("copies handed out", "pkg/dsp/analysis/phasescope.go PhaseScope.GetPoints"), ("copies handed out", "pkg/dsp/analysis/spectrum.go SpectrumAnalyzer.GetSpectrum")],
     note=TRACE, technique=TLC_TRACE)

prop("H05", "Editor, audio thread and a saving host can use an instance at the same time",
     "While one thread gives an instance blocks, others may read, write and display its parameters, save and load its state, turn processing on and off, change the sample rate or activate it: every call returns what it would in some order of the calls, parameter by parameter; "
     "automation and edits are neither lost nor invented, and neither the sample rate nor whether the plugin is processing changes during a block. There are no data races.",
     ["schedules", "histories"], "all interleavings of an audio thread's blocks with automation, an editor's accesses and a host's saves, loads and changes of set-up",
     "Tests call from one thread.",
     ["pkg/plugin/component.go", "pkg/plugin/wrapper_controller.go", "pkg/framework/param/parameter.go"],
     [("lock of the instance", "pkg/plugin/component.go componentImpl.mu"), ("values", "pkg/framework/param/parameter.go GetValue, SetValue"), ("state", "pkg/plugin/component.go GetState, SetState")],
     note=TRACE, technique=TLC_TRACE)

prop("G01", "The logger writes whole lines, those of its level and no other, to one place",
     "A message is written exactly when logging is on and its level is at least the logger's; as one line that says time, level, prefix and the place the message was logged at as the flags ask, "
     "never cut by another thread's and in the order its thread logged it. Percent signs in arguments are no directives, an argument may log itself, a fatal message panics, and a logger to a file appends to it.",
     ["inputs", "histories", "schedules"], "all combinations of levels, prefixes, flags, outputs and ways to log; all interleavings of threads that log",
     "Tests look for substrings in the output of one thread with a handful of settings.",
     ["pkg/framework/debug/logger.go"],
     [("filter and format", "pkg/framework/debug/logger.go Logger.log"), ("package functions", "pkg/framework/debug/logger.go Debug, Info, LogIf"), ("files", "pkg/framework/debug/logger.go NewFileLogger")],
     note=TRACE, technique=TLC_TRACE)

prop("G02", "The profiler's figures are those of the times it measured",
     "A section's time is at least what was spent in it and at most what passed around it. Count, total, average, least, most and last are those of all its times since the last reset, percentiles those of the most recent ones in order of length, "
     "and the load that of the average over the length of a buffer. A copy stays as it was, sections begun with profiling off don't count, and threads lose none. There are no data races.",
     ["inputs", "histories", "schedules"], "all histories of sections, nested and interleaved, resets, copies and reports, and threads that measure",
     "Tests check that figures are positive and that reports contain names.",
     ["pkg/framework/debug/profiler.go"],
     [("measurements", "pkg/framework/debug/profiler.go Measurement.addSample"), ("percentiles", "pkg/framework/debug/profiler.go Measurement.Percentile"), ("load", "pkg/framework/debug/profiler.go AudioProfiler")],
     note=TRACE, technique=TLC_TRACE)

prop("G03", "What the debugging aids say of a buffer is true of it",
     "Peak, RMS, DC, clipping, silence, zero crossings and samples that are no numbers are counted as they are; the comparison of two buffers reports every sample apart by more than the tolerance, and NaN as one; drawings and dumps show the samples. "
     "With the debug tag, uses of buffers are counted per name and frame, a reallocated buffer and any allocation in a function are reported, and a pool never hands out a buffer that is in use.",
     ["inputs", "histories"], "all buffers, tolerances and sizes; all histories of frames, names and pools",
     "Tests use one sine wave or a constant; the package behind the debug tag has almost none that run.",
     ["pkg/framework/debug/audio.go", "pkg/dsp/debug/buffer_debug.go"],
     [("analysis", "pkg/framework/debug/audio.go AudioAnalyzer.Analyze"), ("comparison", "pkg/framework/debug/audio.go CompareBuffers"), ("tracking", "pkg/dsp/debug/buffer_debug.go trackAllocation, DetectAllocation"), ("pool", "pkg/dsp/debug/buffer_debug.go BufferPool")],
     note=TRACE, technique=TLC_TRACE)


def write():
    root = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
    import sys
    sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
    import checks as C
    ids = [p["id"] for p in P]
    assert len(set(ids)) == len(ids)
    nas = {x for x, _ in NA}
    assert set(C.CHECKS) == set(ids) - nas, (set(C.CHECKS) ^ (set(ids) - nas))
    with open(os.path.join(root, "properties.jsonl"), "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, p["title"]
            a = dict(files=p["files"], mechanism=[dict(name=n, where=w) for n, w in p["mech"]])
            if p["state"]:
                a["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in p["state"]]
            if p["observe"]:
                a["observe_at"] = list(p["observe"])
            f.write(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"],
                                    quantifier=dict(over=p["over"], text=p["text"]), why_tests_cant=p["why"], anchors=a)) + "\n")
    m = dict(version=1, setup_cmd="bash setup.sh",
             checks=[dict(property=p["id"], quick_cmd="python3 run.py %s quick" % p["id"],
                          thorough_cmd="python3 run.py %s thorough" % p["id"],
                          evidence_file="evidence/%s.json" % p["id"], technique=p["technique"], level=p["level"],
                          level_note=p["note"]) for p in P if p["id"] not in nas],
             not_applicable=[dict(property=x, reason=r) for x, r in NA],
             notes="Specifications in spec/ (TLA+, TLC); drivers in harness/; see DESIGN.md. No hooks were added to /repo.")
    with open(os.path.join(root, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    write()
