#!/usr/bin/env python3
"""Writes spec/Tables.tla: constants of continuous mathematics in 1/2^20, worked out here and not by the code under test."""
import math, os
ONE = 1 << 20
SPEC = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "spec")


def fn(name, items, comment):
    items = sorted(items.items())
    rows = []
    for i in range(0, len(items), 6):
        rows.append("  " + " @@ ".join("%d :> %d" % kv for kv in items[i:i + 6]))
    return "\\* %s\n%s ==\n%s\n" % (comment, name, " @@\n".join(rows))


q = lambda x: int(round(x * ONE))
TIMES = [8, 16, 24, 40, 48, 80, 96, 120, 160, 240, 320, 400, 480, 800, 960, 1600, 2400, 4000, 4800, 8000, 9600, 12000, 16000, 24000, 40000, 48000, 144000, 160000, 960000]
out = ["------------------------------- MODULE Tables -------------------------------",
       "(* Written by tools/gentab.py: constants in 1/2^20, worked out there with     *)",
       "(* double precision from their definitions.                                   *)",
       "EXTENDS Integers, TLC", ""]
out.append(fn("Exp1", {n: q(math.exp(-10 / n)) for n in TIMES}, "Exp1[n]: exp(-10/n), the one-pole coefficient of n/10 samples"))
out.append(fn("Exp22", {n: q(math.exp(-22 / n)) for n in TIMES}, "Exp22[n]: exp(-22/n)"))
out.append(fn("Gain", {d: q(10 ** (d / 40)) for d in range(-240, 25)}, "Gain[d]: d/2 decibels as a factor"))
out.append(fn("Hp", {sr // 1000 * 100000 + f: q(math.exp(-2 * math.pi * f / sr)) for sr in (8000, 48000) for f in (200, 500, 1000, 2000, 4000, 24000)}, "Hp[100 sr + f]: exp(-2 pi f / sr), the pole of a one-pole high-pass"))
db = lambda x: int(round(20 * math.log10(x) * 65536))
out.append(fn("DbT", {i: db(1 + i / 256) for i in range(257)}, "DbT[i]: 1 + i/256 in 1/65536 decibels"))
out.append(fn("AmpT", {i: q(2 ** (i / 256)) for i in range(257)}, "AmpT[i]: 2 to the i/256"))
out.append(fn("SinT", {i: q(math.sin(2 * math.pi * i / 1024)) for i in range(1025)}, "SinT[i]: sin(2 pi i / 1024)"))
FREQS = [(100, 8000), (1000, 8000), (2000, 8000), (3500, 8000), (440, 44100), (5000, 44100), (200, 48000), (1000, 48000), (8000, 48000), (12000, 48000), (20000, 48000)]
W = {i + 1: 2 * math.pi * f / sr for i, (f, sr) in enumerate(FREQS)}
out.append("\\* frequencies 1..%d: %s" % (len(FREQS), ", ".join("%d Hz at %d Hz" % x for x in FREQS)))
out.append(fn("SinW", {i: q(math.sin(w)) for i, w in W.items()}, "SinW[i]: sin(2 pi f / sr)"))
out.append(fn("CosW", {i: q(math.cos(w)) for i, w in W.items()}, "CosW[i]: cos(2 pi f / sr)"))
out.append(fn("TanW", {i: q(math.tan(w / 2)) for i, w in W.items()}, "TanW[i]: tan(pi f / sr)"))
out.append(fn("DcR", {sr // 100 * 1000 + f: q(1 - 2 * math.pi * f / sr) for sr in (8000, 44100, 48000) for f in (1, 5, 10, 20, 50, 100, 400)}, "DcR[10 sr + f]: 1 - 2 pi f / sr"))

def seq(name, items, comment):
    rows = [", ".join(str(x) for x in items[i:i + 12]) for i in range(0, len(items), 12)]
    return "\\* %s\n%s == <<\n  %s>>\n" % (comment, name, ",\n  ".join(rows))

out.append(seq("TanhT", [q(math.tanh(i / 256)) for i in range(2050)], "TanhT[i + 1]: tanh(i/256)"))
out.append(seq("AtanT", [q(2 / math.pi * math.atan(i / 1024)) for i in range(1026)], "AtanT[i + 1]: 2/pi atan(i/1024)"))
out.append(seq("Exp3T", [q((1 - math.exp(-3 * i / 1024)) / (1 - math.exp(-3))) for i in range(1026)], "Exp3T[i + 1]: (1 - exp(-3 i/1024)) / (1 - exp(-3))"))
al = lambda w: math.sin(w) / (math.sin(w) + math.cos(w))
out.append(fn("AliasT", {f: q(al(min(2 * math.pi * 0.45 * 4 / f, math.pi / 2))) for f in range(4, 401)}, "AliasT[4 f]: the coefficient of the anti-aliasing filter of a reduction by f"))
def i0(x):
    t, s, k = 1.0, 1.0, 0
    while t > 1e-18 * s:
        k += 1
        t *= (x / 2 / k) ** 2
        s += t
    return s

def window(w, n, i):
    c = lambda *a: sum((-1) ** k * x * math.cos(2 * math.pi * k * i / (n - 1)) for k, x in enumerate(a))
    if w == 0: return 1
    if w == 1: return c(0.5, 0.5)
    if w == 2: return c(0.54, 0.46)
    if w == 3: return max(0, c(0.42, 0.5, 0.08))
    if w == 4: return c(0.35875, 0.48829, 0.14128, 0.01168)
    if w == 5: return i0(8.6 * math.sqrt(max(0, 1 - (2 * i / (n - 1) - 1) ** 2))) / i0(8.6)
    return max(0, c(0.21557895, 0.41663158, 0.277263158, 0.083578947, 0.006947368))
out.append(fn("WinT", {w * 1000 + n * 20 + i: q(window(w, n, i)) for w in range(7) for n in (range(2, 11) if w == 1 else (2, 4, 8)) for i in range(n)}
              | {w * 1000 + 320 + i: q(window(w, 16, i)) for w in range(7) for i in range(16)},
              "WinT[1000 w + 20 n + i]: sample i of window w (rectangular, Hann, Hamming, Blackman, Blackman-Harris, Kaiser 8.6, flat top) of n"))
def k_db(f, sr):
    """The K-weighting of ITU-R BS.1770, by its analog prototypes transformed bilinearly."""
    z = complex(math.cos(2 * math.pi * f / sr), -math.sin(2 * math.pi * f / sr))
    k = math.tan(math.pi * 1681.974450955533 / sr)
    vh = 10 ** (3.999843853973347 / 20)
    vb = vh ** 0.4996667741545416
    a = 0.7071752369554196
    h = ((vh + vb * k / a + k * k) + 2 * (k * k - vh) * z + (vh - vb * k / a + k * k) * z * z) / ((1 + k / a + k * k) + 2 * (k * k - 1) * z + (1 - k / a + k * k) * z * z)
    k = math.tan(math.pi * 38.13547087602444 / sr)
    a = 0.5003270373238773
    h *= (1 - z) ** 2 / (1 + 2 * (k * k - 1) / (1 + k / a + k * k) * z + (1 - k / a + k * k) / (1 + k / a + k * k) * z * z)
    return int(round(20 * math.log10(abs(h)) * 65536))
TONES = [(1000, 48000), (1000, 16000), (1000, 44100), (100, 48000), (200, 16000), (5000, 48000), (3000, 16000), (500, 8000), (40, 16000), (25, 48000), (60, 44100)]
out.append(seq("KDb", [k_db(*x) for x in TONES], "KDb[i]: K-weighting in 1/65536 decibels of %s" % ", ".join("%d Hz at %d" % x for x in TONES)))
out.append("=" * 77)
open(os.path.join(SPEC, "Tables.tla"), "w").write("\n".join(out) + "\n")
