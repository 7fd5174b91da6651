"""Which specification, constants and drivers decide which property."""
from engine import *
from hostflags import hostflags

CHECKS = {}


def check(pid, *assumptions):
    def deco(fn):
        CHECKS[pid] = (fn, assumptions)
        return fn
    return deco


def std(ctx, name, spec, domain, pkg="core", mc="", sim=None, min_ops=(), tags="", race=False, workers=4,
        trace=True, mcmod=None, cfg=None, scfg=None, serial=False, env=None, shards=1):
    """The usual shape: exhaustive + simulated behaviours replayed, recorded histories validated."""
    b = ctx.binary(pkg, tags=tags, race=race, env=env)
    thorough = ctx.tier == "thorough"
    fns = []
    mcmod = mcmod or "MC" + spec
    base = cfg or mcmod
    cfg = base + ("_thorough" if thorough and os.path.exists(os.path.join(SPEC, base + "_thorough.cfg")) else "") + ".cfg"
    fns.append(lambda: part_mc(ctx, name + "-mc", mcmod, cfg, b, domain, workers=workers, min_ops=min_ops, serial=serial))
    if sim:
        scfg = scfg or base + "_sim.cfg"
        k = sim[0] * (10 if thorough else 1)
        fns.append(lambda: part_mc(ctx, name + "-sim", mcmod, scfg, b, domain, sim=(k, sim[1]), serial=serial))
    if trace:
        fns.append(lambda: part_trace(ctx, name + "-trace", "Trace" + spec, "Trace" + spec + ".cfg", b, domain,
                                      workers=workers, min_ops=min_ops, shards=shards))
    parallel(*fns)


@check("Q01", "event payloads are observed through the public fields; offsets stay inside 32 bits")
def q01(ctx):
    std(ctx, "queue", "EventQueue", "queue", sim=(60, 30),
        min_ops=("add", "addmany", "range", "process", "all", "size", "remove", "shift", "clear"))


def voices(focus, ops):
    def fn(ctx):
        std(ctx, "voice-" + focus, "VoiceAllocator", "voice-" + focus, cfg="MCVoiceAllocator_" + focus,
            sim=(60, 50), min_ops=ops)
    return fn


VA = "voices are stand-ins that report the state the voice interface asks for; one goroutine"
CHECKS["V01"] = (voices("poly", ("on", "off", "end", "max", "reset")), (VA,))
CHECKS["V02"] = (voices("steal", ("on", "off", "tick", "loud")), (VA,))
CHECKS["V03"] = (voices("sustain", ("on", "off", "pedal", "midi")), (VA,))
CHECKS["V04"] = (voices("mono", ("on", "off", "pedal", "mode", "max")), (VA,))


def ctx(focus, ops):
    def fn(c):
        std(c, "ctx-" + focus, "ProcessContext", "ctx-" + focus, cfg="MCProcessContext_" + focus, min_ops=ops)
    return fn


CA = "normalised values are multiples of 1/64 and samples are integers, so that results are exact"
CHECKS["C01"] = (ctx("params", ("addchange", "sort", "changes", "resetchanges", "apply", "value")), (CA,))
CHECKS["C02"] = (ctx("events", ("evin", "evout", "getin", "allin", "getout", "clearin")), (CA,))
CHECKS["C03"] = (ctx("buffers", ("block", "pass", "samples", "scratch")), (CA, "blocks are not longer than the configured maximum"))


@check("P01", CA, "plain ranges are 64 integer steps wide")
def p01(c):
    std(c, "param", "Param", "param", min_ops=("new", "setn", "setp", "setodd", "norm", "denorm"))


@check("R01")
def r01(c):
    std(c, "reg", "Registry", "reg-plain", cfg="MCRegistry_plain", min_ops=("add", "get", "at", "count", "all"))


@check("R02")
def r02(c):
    std(c, "autoreg", "Registry", "reg-auto", cfg="MCRegistry_auto",
        min_ops=("register", "withid", "build", "reserve", "enable", "clear", "byname", "idof", "add"))


@check("T01", "one goroutine; values are multiples of 1/64; custom data of up to 20 bytes")
def t01(c):
    std(c, "state", "State", "state", min_ops=("save", "savefail", "load", "loadsaved", "saveglitch", "set", "add", "custom"))


@check("T02", "the changes happen between the writes of one save, or in one other thread, as the scheduler interleaves them; data races as the race detector sees them")
def t02(c):
    b = c.binary("core")
    race = c.binary("core", race=True, env={"CGO_ENABLED": "1"})
    ops = ("saveduring", "loadsaved")
    parallel(lambda: part_trace(c, "during", "TraceState", "TraceState.cfg", b, "during", min_ops=ops),
             lambda: part_trace(c, "thread", "TraceState", "TraceState.cfg", b, "duringthread", min_ops=ops, shards=2),
             lambda: part_trace(c, "race", "TraceState", "TraceState.cfg", race, "duringthread", min_ops=ops, shards=2))


@check("S01", "plain values, steps and coefficients are dyadic, so that linear and exponential steps are exact; logarithmic ones are bounded")
def s01(c):
    b = c.binary("core")
    th = "_thorough" if c.tier == "thorough" else ""
    parallel(lambda: part_mc(c, "smoother-bare", "MCSmoother", "MCSmoother_bare%s.cfg" % th, b, "smooth", min_ops=("next", "process", "rate", "thr")),
             lambda: part_mc(c, "smoother-par", "MCSmoother", "MCSmoother_par%s.cfg" % th, b, "smooth", min_ops=("setp", "get", "all", "enable")),
             lambda: part_trace(c, "smoother-trace", "TraceSmoother", "TraceSmoother.cfg", b, "smooth", min_ops=("new", "target", "reset", "next", "process", "thr", "rate", "time", "fall", "setv", "setp", "get", "all", "enable", "value")))


@check("B01", "audio and event media types and the two directions the interface knows")
def b01(c):
    std(c, "bus", "Buses", "bus", min_ops=("with", "short", "event", "bactive", "build", "active", "info", "count", "chans", "activelist", "side", "addevent", "template"))


@check("X01", "samples are integers; up to four buses per side with up to four channels")
def x01(c):
    std(c, "mbus", "MultiBus", "mbus", min_ops=("main", "sidechain", "bus", "info", "num", "visit", "procmain", "procside", "active", "clear", "pass", "write", "dump"))


@check("F01", "the processors in the chains are integer machines that make order, state and routing visible")
def f01(c):
    b = c.binary("core")
    th = "_thorough" if c.tier == "thorough" else ""
    parallel(lambda: part_mc(c, "chain-mono", "MCChains", "MCChains_mono%s.cfg" % th, b, "chain", min_ops=("add", "addfunc", "process", "reset", "bypass", "count", "bwith", "bfunc", "build")),
             lambda: part_mc(c, "chain-stereo", "MCChains", "MCChains_stereo%s.cfg" % th, b, "chain", min_ops=("process2",)),
             lambda: part_trace(c, "chain-trace", "TraceChains", "TraceChains.cfg", b, "chain"))


@check("F02", "buffers of up to 64 samples; the parts themselves are decided by D03, D04, D05 and D13")
def f02(c):
    part_trace(c, "adapters", "TraceAdapters", "TraceAdapters.cfg", c.binary("core"), "adapters", min_ops=("new", "run", "reset", "mix"), shards=2)


@check("D10", "samples are multiples of 1/16 and gains of 1/16, so that results are exact; source and destination are the same buffer or do not overlap")
def d10(c):
    std(c, "samples", "Samples", "samples", min_ops=("clear", "copy", "add", "addscaled", "scale", "scaleto", "mix", "drywet", "clip", "peak", "fade", "sum", "pan", "panstereo", "balance", "width"))


@check("D01", "samples, feedback and delays are dyadic, so that results are exact; delays between one sample and the length of the line")
def d01(c):
    std(c, "delay", "Delay", "delay", min_ops=("process", "block", "mix", "write", "read", "fb", "damp", "reset", "center", "mod", "taps"))


TA = ("every kind of processor with three or more values per setting, at a sample rate of 8 kHz; outputs compared within 24/2^20 and 1/16384 of their size",)


def trans(mode, ops, *assumptions):
    def fn(c):
        b = c.binary("dspx")
        part_trace(c, "trans-" + mode, "TraceTransducer", "TraceTransducer.cfg", b, "trans-" + mode, min_ops=ops)
    return fn, TA + assumptions


CHECKS["D05"] = trans("split", ("new", "set", "process"))
CHECKS["D06"] = trans("reset", ("new", "set", "process", "reset"))
CHECKS["D07"] = trans("level", ("new", "set", "process", "reset", "tail"), "a tail counts as decayed below 1/512 after 20 s of silence")
CHECKS["D08"] = trans("alloc", ("new", "set", "process", "allocs"))

EA = "times are 1 ms to 0.3 s at 8 and 48 kHz; one step is compared at a time, within 4/2^20 (48/2^20 for RMS)"


@check("D02", EA)
def d02(c):
    b = c.binary("core")
    part_trace(c, "envgen", "TraceEnvelopes", "TraceEnvelopes.cfg", b, "envgen", min_ops=("new", "set", "setall", "trigger", "release", "reset", "run"))


@check("D09", EA)
def d09(c):
    b = c.binary("core")
    part_trace(c, "envdet", "TraceEnvelopes", "TraceEnvelopes.cfg", b, "envdet", min_ops=("follow", "detect", "level", "mode", "type", "set", "reset"))


@check("D03", "thresholds between -40 and 0 dB and settings in half decibels; gains compared within 4/2^20")
def d03(c):
    b = c.binary("core")
    part_trace(c, "gate", "TraceGate", "TraceGate.cfg", b, "gate", min_ops=("set", "filter", "reset", "process"))


@check("D04", "settings in quarters; reductions compared within 0.02 dB and what the level adds to it")
def d04(c):
    b = c.binary("core")
    part_trace(c, "dyn", "TraceDynamics", "TraceDynamics.cfg", b, "dyn", min_ops=("set", "turn", "reset", "process"))


@check("P02", "values in thousandths of a unit; texts in the spellings the parsers and their tests name")
def p02(c):
    b = c.binary("core")
    part_trace(c, "text", "TraceText", "TraceText.cfg", b, "text", min_ops=("new", "format", "back", "parse", "word", "name", "register", "take"))


@check("P03", "numbers in thousandths, ranges of up to 150 with steps of a half; identifiers below 1000")
def p03(c):
    part_trace(c, "builder", "TraceBuilder", "TraceBuilder.cfg", c.binary("core"), "builder",
               min_ops=("new", "short", "unit", "range", "default", "steps", "flags", "toggle", "readonly", "hidden", "bypass", "format", "build", "show", "reformat", "set", "facts"))


@check("D13", "increments are multiples of 2^-20 of a cycle; the low-frequency oscillator runs at 1024 samples per second; comparisons within 8/2^20 (64/2^20 for the band-limited sawtooth)")
def d13(c):
    b = c.binary("core")
    part_trace(c, "osc", "TraceOscillators", "TraceOscillators.cfg", b, "osc",
               min_ops=("osc", "blit", "blsaw", "lfo", "noise", "inc", "freq", "wave", "depth", "offset", "enable", "sync", "phase", "reset", "color", "run", "stats"))


@check("D11", "frequencies of 100 Hz to 20 kHz at three sample rates, qualities of 0.5 to 5.25, gains of -12 to 12 dB; one step is compared at a time within 24/2^20")
def d11(c):
    b = c.binary("core")
    part_trace(c, "filter", "TraceFilters", "TraceFilters.cfg", b, "filter",
               min_ops=("biquad", "svf", "dc", "simple", "design", "raw", "tune", "mode", "cutoff", "reset", "process"))


@check("D12", "inputs are multiples of 1/1024 up to 2 (1.25 for the tube), settings of 1/64; outputs compared within 16 to 96/2^20, the tape's within its hiss")
def d12(c):
    b = c.binary("core")
    part_trace(c, "dist", "TraceDistortion", "TraceDistortion.cfg", b, "dist", min_ops=("new", "set", "reset", "process", "even", "fn"))


@check("D14", "samples are multiples of 1/64, positions and ratios of 1/16; compared within 2 to 8/2^20 (16/2^20 for each sample under a window)")
def d14(c):
    b = c.binary("core")
    part_trace(c, "interp", "TraceInterpolation", "TraceInterpolation.cfg", b, "interp", min_ops=("linear", "cubic", "window", "resample", "smooth", "allpass", "reset"))


@check("U01", "ranges in 1/64, powers of two as ratios of exponential ranges; compared within 2 to 4/2^20 and 1/131072 of the size")
def u01(c):
    b = c.binary("core")
    part_trace(c, "scaling", "TraceScaling", "TraceScaling.cfg", b, "scaling", min_ops=("fn", "smooth", "target", "jump", "process", "current"))


@check("M01", "notes 0 to 127, tunings of 400 to 487 Hz, frequencies in whole cents")
def m01(c):
    b = c.binary("core")
    part_trace(c, "notes", "TraceNotes", "TraceNotes.cfg", b, "notes", min_ops=("name", "freq", "note", "back", "silent", "event", "bend"))


def hostbin(c):
    """The driver that loads the plugin through its C interface, with the header the repository lacks."""
    return c.binary("host", env={"CGO_ENABLED": "1", "CGO_CFLAGS": hostflags()}, asan=True)


@check("H05", "one audio thread, one editor and one that saves; interleavings are those the scheduler gives; data races as the race detector sees them")
def h05(c):
    race = c.binary("host", env={"CGO_ENABLED": "1", "CGO_CFLAGS": hostflags()}, race=True)
    parallel(lambda: part_trace(c, "threads", "TraceHostThreads", "TraceHostThreads.cfg", hostbin(c), "threads", min_ops=("round",), shards=3),
             lambda: part_trace(c, "race", "TraceHostThreads", "TraceHostThreads.cfg", race, "threads", min_ops=("round",), shards=3))


@check("G01", "files in a scratch directory; threads as the scheduler interleaves them")
def g01(c):
    part_trace(c, "logger", "TraceLogger", "TraceLogger.cfg", c.binary("dbg", tags="debug"), "logger",
               min_ops=("new", "file", "output", "level", "prefix", "flags", "enable", "name", "log", "storm"), shards=3)


@check("G02", "sections of microseconds; a history in which one took longer than 20 ms is left there")
def g02(c):
    ops = ("new", "run", "begin", "end", "report", "copy", "ask", "enable", "reset", "load", "storm")
    parallel(lambda: part_trace(c, "profiler", "TraceProfiler", "TraceProfiler.cfg", c.binary("dbg", tags="debug"), "profiler", min_ops=ops, shards=3),
             lambda: part_trace(c, "race", "TraceProfiler", "TraceProfiler.cfg", c.binary("dbg", tags="debug", race=True, env={"CGO_ENABLED": "1"}), "profiler", min_ops=ops, shards=3))


@check("G03", "buffers of up to 24 samples in 1/64, quiet ones in 1/65536; tracking with and without the debug tag, in one thread")
def g03(c):
    b = c.binary("dbg", tags="debug")
    parallel(lambda: part_trace(c, "bufstats", "TraceBufferStats", "TraceBufferStats.cfg", b, "bufstats", min_ops=("analyze", "check", "stats", "compare", "print", "dump"), shards=2),
             lambda: part_trace(c, "alloctrack", "TraceAllocTrack", "TraceAllocTrack.cfg", b, "alloctrack",
                                min_ops=("new", "enable", "reset", "check", "start", "end", "report", "reuse", "detect", "get", "put"), shards=2),
             lambda: part_trace(c, "released", "TraceAllocTrack", "TraceAllocTrack.cfg", c.binary("dbg"), "alloctrack",
                                min_ops=("new", "enable", "reset", "check", "start", "end", "report", "reuse", "detect"), shards=2))


@check("H01", "the host's tables are written from the published interface; one audio thread per instance")
def h01(c):
    part_trace(c, "block", "TraceHost", "TraceHost.cfg", hostbin(c), "block",
               min_ops=("create", "setup", "active", "processing", "value", "set", "process"), shards=4)


@check("D15", "sample rates are powers of two; rates multiples of 2^-20 of a cycle per sample, delays of 1/16 sample; comparisons within 16 to 1024 of 2^-20")
def d15(c):
    part_trace(c, "modfx", "TraceModulation", "TraceModulation.cfg", c.binary("core"), "modfx",
               min_ops=("new", "rate", "depth", "modlfo", "wave", "tremwave", "harm", "stereo", "offset", "smooth", "gain", "carrier", "lfo", "mix", "feedback", "spread",
                        "voices", "delay", "manual", "position", "center", "range", "stages", "reset", "run"), shards=6)


@check("D16", "sample rates of 345 to 4096 Hz, where the lines are 1 to 150 samples long; single values compared within 128 to 256 of 2^-20")
def d16(c):
    part_trace(c, "reverbs", "TraceReverbs", "TraceReverbs.cfg", c.binary("core"), "reverbs", min_ops=("new", "set", "preset", "reset", "sample", "idle"), shards=6)


@check("C06", "blocks of up to 9 samples and 4 buses; a host that says how many there are")
def c06(c):
    part_trace(c, "hostdata", "TraceHostData", "TraceHostData.cfg", hostbin(c), "hostdata",
               min_ops=("wrap", "none", "bus", "read", "write", "host", "scribble", "context"), shards=3)


@check("H02", "the host's tables are written from the published interface; plain ranges are 64 whole steps wide")
def h02(c):
    part_trace(c, "controller", "TraceController", "TraceController.cfg", hostbin(c), "controller",
               min_ops=("create", "count", "info", "text", "parse", "plain", "norm", "get", "set", "buses", "businfo", "arrangement", "arrange", "handler", "told", "host"), shards=4)


@check("H03", "the host's tables are written from the published interface; a stream gives no data only at its end")
def h03(c):
    b = hostbin(c)
    parallel(lambda: part_trace(c, "persist", "TracePersist", "TracePersist.cfg", b, "persist", min_ops=("new", "set", "custom", "get", "save", "load", "hurt", "big", "live"), shards=2),
             lambda: part_trace(c, "stream", "TraceStream", "TraceStream.cfg", b, "stream",
                                min_ops=("open", "write", "wint", "wfloat", "wstr", "read", "rint", "rfloat", "rstr", "all", "dump"), shards=2))


@check("H04", "the host's tables are written from the published interface; the factory is asked for by one thread at a time")
def h04(c):
    part_trace(c, "lifetime", "TraceLifetime", "TraceLifetime.cfg", hostbin(c), "lifetime",
               min_ops=("register", "factory", "fqi", "faddref", "frelease", "finfo", "count", "class", "create", "qi", "addref", "release", "set", "get", "alive", "storm", "init", "term", "module"), shards=4)


@check("C04", "positions in 1/64 of a quarter note, tempos in 1/4 bpm; a beat's length compared within 1/64 of a sample")
def c04(c):
    part_trace(c, "transport", "TraceTransport", "TraceTransport.cfg", c.binary("core"), "transport", min_ops=("set", "bars", "pos", "on", "spb"), shards=4)


@check("L01", "the host's tables are written from the published interface; identifiers are compared byte by byte")
def l01(c):
    parallel(lambda: part_trace(c, "lifecycle", "TraceLifecycle", "TraceLifecycle.cfg", hostbin(c), "lifecycle",
                                min_ops=("new", "callbacks", "init", "setup", "active", "processing", "process", "facts"), shards=3),
             lambda: part_trace(c, "identity", "TraceIdentity", "TraceIdentity.cfg", c.binary("core"), "identity", min_ops=("uid",), shards=2))


@check("C05", "the host's tables are written from the published interface; blocks without MIDI events; allocations of Go's heap, per block, once such a block has been seen")
def c05(c):
    part_trace(c, "realtime", "TraceRealTime", "TraceRealTime.cfg", c.binary("host", env={"CGO_ENABLED": "1", "CGO_CFLAGS": hostflags()}), "realtime", min_ops=("new", "processing", "context", "block"), shards=2)


@check("R03", "two or three threads of four calls each on one object; interleavings are those the scheduler gives; data races as the race detector sees them")
def r03(c):
    parallel(lambda: part_trace(c, "conc", "TraceConc", "TraceConc.cfg", c.binary("core"), "conc", min_ops=("round",), shards=3),
             lambda: part_trace(c, "race", "TraceConc", "TraceConc.cfg", c.binary("core", race=True, env={"CGO_ENABLED": "1"}), "conc", min_ops=("round",), shards=3))


@check("A05", "one thread feeds and up to two read; interleavings are those the scheduler gives; data races as the race detector sees them")
def a05(c):
    parallel(lambda: part_trace(c, "readers", "TraceReaders", "TraceReaders.cfg", c.binary("core"), "readers", min_ops=("round",), shards=2),
             lambda: part_trace(c, "race", "TraceReaders", "TraceReaders.cfg", c.binary("core", race=True, env={"CGO_ENABLED": "1"}), "readers", min_ops=("round",), shards=2))


@check("A01", "blocks of up to 12 samples in tenths; levels within a millionth, decibels within 1/16")
def a01(c):
    part_trace(c, "meters", "TraceMeters", "TraceMeters.cfg", c.binary("core"), "meters",
               min_ops=("new", "set", "reset", "peak", "rms", "balance", "width"), shards=3)


@check("A02", "samples in quarters, windows of up to 6; results within a thousandth")
def a02(c):
    part_trace(c, "image", "TraceStereoImage", "TraceStereoImage.cfg", c.binary("core"), "image",
               min_ops=("new", "set", "reset", "corr", "ragged", "scope", "points", "polar", "stats"), shards=3)


@check("A03", "frames of 2, 4, 8 and 16 small integers; transforms within a ten thousandth")
def a03(c):
    part_trace(c, "spectrum", "TraceSpectrum", "TraceSpectrum.cfg", c.binary("core"), "spectrum",
               min_ops=("fft", "transform", "forward", "inverse", "back", "cross", "hann", "bins", "analyzer", "set", "averaging", "freqs", "reset",
                        "process", "range", "db", "peak", "band", "bands", "octaves"), shards=3)


@check("A04", "tones whose levels change every 100 ms, falling by at most 20 dB; loudness within 1/8 dB; blocks within 1/4 dB of the absolute gate leave the integrated loudness undecided")
def a04(c):
    part_trace(c, "loudness", "TraceLoudness", "TraceLoudness.cfg", c.binary("core"), "loudness",
               min_ops=("new", "reset", "tone", "steady", "constant"), shards=3)
