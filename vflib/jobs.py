"""Which harness runs decide which property, and within which bounds.

A group is {variant, features, judge, jobs: [(harness, params, cpus)], need: {harness: covers}}.
Every job is decided for all values of its symbolic bytes; the lists below are the bounds.
"""
import zlib
import os
import re

ALL = "b64,b32,hex,uuid,uni"
CPUS = ["sse2", "ssse3", "sse41", "avx2"]      # one per code path the dispatch can take
STD = "std"                                     # run-time dispatch, standard library


def two(a, b):
    return a | (b + 1) << 16


# where the buffers of a job begin, in units of the type's alignment, counted from the start of a page;
# with two numbers, every other buffer gets the second
OFFS = [1, 1, 0, 0, 16, 32, 8, 4, 2, 3, 31, 4000, 4064, 4090, two(0, 1), two(1, 0), two(16, 5), two(3, 32), two(32, 16), two(4070, 0)]


class Plan:
    def __init__(self):
        self.groups = {}

    def add(self, features, judge, harness, params, cpus=CPUS, variant=STD, need=None, relational=False, off=None):
        if off is None:
            off = OFFS[zlib.crc32(repr((harness, tuple(params), variant)).encode()) % len(OFFS)]
        j = judge if off == 1 else judge + "+o%d" % off
        g = self.groups.setdefault((variant, features), {"variant": variant, "features": features, "jobs": [], "need": {}})
        if relational:
            g["jobs"].append((harness, tuple(params), ",".join(cpus), j))
        else:
            for c in cpus:
                g["jobs"].append((harness, tuple(params), c, j))
        if need:
            g["need"].setdefault(harness, set()).update(need)


THIN = {0, 1, 2, 3, 4, 5, 6, 7, 8, 12, 14, 15, 16, 17, 20, 22, 24, 28, 30, 31, 32, 33, 35, 36, 38, 40, 45, 47, 48, 50, 52, 56, 58, 60, 62, 63, 64, 65, 66, 72, 80, 95, 96, 97}


TINY = {0, 1, 5, 16, 31, 32, 36, 45, 48, 64, 72, 97}


class Thin:
    """only some of the sizes below 100"""

    def __init__(self, plan, sizes):
        self.plan = plan
        self.sizes = sizes

    def add(self, features, judge, harness, params, *a, **k):
        i = 1 if harness.startswith(("h_b64", "h_b32", "h_hex_enc")) and harness != "h_b64_forgiving" else 0
        if params[i] < 100 and params[i] not in self.sizes and (harness != "h_b64_forgiving" or self.sizes is TINY):
            return
        self.plan.add(features, judge, harness, params, *a, **k)


class Short:
    """nothing beyond a size"""

    def __init__(self, plan, top):
        self.plan = plan
        self.top = top

    def add(self, features, judge, harness, params, *a, **k):
        if not params or max(params[:2]) <= self.top:
            self.plan.add(features, judge, harness, params, *a, **k)


class Rel(Plan):
    """every job on all processors at once, with the same inputs"""

    def __init__(self, groups, on):
        self.groups = groups
        self.on = on

    def add(self, features, judge, harness, params, cpus=CPUS, variant=STD, need=None, relational=False, off=None):
        super().add(features, judge, harness, params, self.on, variant, None, True, off)


def uniq(xs):
    return sorted(set(xs))


# ---- sizes -------------------------------------------------------------------------------------

def b64_dl(v, n):
    return (n + 2) // 3 * 4 if v < 2 else (n * 8 + 5) // 6


def b32_dl(v, n):
    return (n + 4) // 5 * 8 if v < 2 else (n * 8 + 4) // 5


def windows(n, w, few=False):
    """positions of a window of w symbolic characters in a text of n"""
    w = min(w, n)
    ps = [0, n - w] if few else [0, w // 2, (n - w) // 2, n - w - w // 2, n - w]
    return [(p, w) for p in uniq(max(0, min(n - w, p)) for p in ps)]


def long_sizes(q, top, step=1):
    """all lengths from top on, and the neighbours of likely thresholds"""
    s = list(range(top, 340 if q else 700))
    for t in [384, 448, 512, 640, 768, 1024, 1536, 2048, 3072, 4096] + ([] if q else [6144, 8192, 12288, 16384, 32768, 65536]):
        s += range(t - 1, t + 5) if q else range(t - 5, t + 9)
    return [n for n in uniq(s) if n % step == 0]


def long_text(P, c, judge, tier, harness, cpus, variant, mk, top, w=48):
    """texts longer than top: a window of symbolic characters at the end, and one elsewhere"""
    q = tier == "quick"
    for n in long_sizes(q, top):
        if c == "hex":
            vs = [None] if n % 2 == 0 or n % 5 == 0 else []
        else:
            # with padding only whole groups are legal
            vs = [n // 8 % 2, 2 + n // 8 % 2] if n % (4 if c == "b64" else 8) == 0 else [2 + n % 2] if n % 7 else [n // 7 % 2]
        for v in vs:
            ps = [n - w, (0, (n - w) // 2, n - w - w // 2, w // 2, n // 3)[n % 5]]
            for i, at in enumerate(ps if q else ps + [n // 5, n // 4, n // 2]):
                P.add(c, judge, harness, mk(v, n) + (max(0, min(at, n - w)), min(n, w)), cpus[-1:] if n % 3 or n > 700 else cpus[(n // 3 + i) % 4:][:1] if q else cpus, variant)


def huge(P, f, judge, tier, h, cpus, mk, step=1, vs=(0, 1, 2, 3), w=32, scale=1, whole=(), bad=()):
    """a few texts beyond any plausible block size, and some all-symbolic ones of middle size"""
    q = tier == "quick"
    for i, c in enumerate(cpus):
        for n in [70003 if c == "avx2" or len(cpus) == 1 else 20003] if q else [20003, 33001, 70003, 140009]:
            n = n * scale
            for v in vs if not q else [vs[(i + n) % len(vs)]] if i + 1 < len(cpus) else vs[:2]:
                m = n - n % step if v is None or v < 2 or q else n - n % step + 2
                for at in [m - w] if q else [m - w, 65536 - w // 2, 0]:
                    if 0 <= at <= m - w:
                        P.add(f, judge, h, mk(v, m) + (at, w), [c])
    # so many wrong characters that a counter of eight bits overflows
    for n, b in bad if q else [x for n, b in bad for x in ((n, b), (n * 2, b), (n // 2, b), (n, 32))]:
        for v in vs[:1] if q else vs:
            P.add(f, judge, h, mk(v, n + 128) + (n - w, 128 + w, b), cpus)
    for n in whole if q else list(whole) + [x + 37 for x in whole]:
        for v in vs[:1] if q else vs:
            m = n - n % step
            P.add(f, judge, h, mk(v, m), cpus[-1:] if q else cpus)


def longest(P, prop, J, tier):
    b64 = dict(zip("ecd", (lambda v, n: (v, n, b64_dl(v, n), 0), lambda v, n: (v, n), lambda v, n: (v, n, n // 4 * 3 + n % 4, 0))))
    b32 = dict(zip("ecd", (lambda v, n: (v, n, b32_dl(v, n), 0), lambda v, n: (v, n), lambda v, n: (v, n, n // 8 * 5 + n % 8, 0))))
    hx = (None,)
    q = tier == "quick"
    if prop == "C01":
        huge(P, "b64", J, tier, "h_b64_enc", CPUS, b64["e"])
    elif prop == "C02":
        huge(P, "b64", J, tier, "h_b64_dec", CPUS, b64["d"], 4, whole=[340], bad=[(16384, 1)])
    elif prop == "C03":
        huge(P, "b64", J, tier, "h_b64_check", CPUS, b64["c"], 4, scale=2, whole=[340, 1000], bad=[(16384, 1)])
    elif prop == "C04":
        h = "h_b64_forgiving"
        for form in range(3):
            # wrapped text, as in mail and certificates
            for n in [60, 76, 130, 160] if q else [30, 60, 76, 77, 78, 130, 160, 200, 320]:
                for period in [4, 19, 60, 64, 76]:
                    for k in [1, 2]:
                        for i, ph in enumerate([0, period // 2]):
                            if (n + period + k + i + form) % 3 == 0 or not q:
                                P.add("b64", J, h, (n, form, 4, period, k, ph), CPUS[(n + period + i) % 4:][:1] if q else CPUS)
            for n in [1003, 4100] if q else [1003, 1004, 2000, 4100, 8200]:
                for period in [64, 76]:
                    for k in [1, 2]:
                        for lo in [n - 48] if q else [0, n // 2, n - 48]:
                            P.add("b64", J, h, (n, form, 4, period, k, 0, lo, 48), CPUS[(k + form) % 4:][:1] if q else CPUS)
        for n in [20003] if q else [20003, 70003]:
            P.add("b64", J, h, (n, 1, 4, 76, 1, 0, n - 40, 40), CPUS[-1:] if q else CPUS)
            P.add("b64", J, h, (n + 1, 0, 3, 5, 1, n - 39, 40), CPUS[-1:] if q else CPUS)
    elif prop == "C05":
        huge(P, "hex", J, tier, "h_hex_enc", CPUS, lambda v, n: (v, n, 2 * n, 0), vs=(0, 1))
    elif prop == "C06":
        huge(P, "hex", J, tier, "h_hex_dec", CPUS, lambda v, n: (n, n // 2, 0), 2, vs=hx, whole=[300], bad=[(16384, 1)])
    elif prop == "C07":
        huge(P, "hex", J, tier, "h_hex_check", CPUS, lambda v, n: (n, 0), 2, vs=hx, scale=2, whole=[400, 1000], bad=[(16384, 1)])
    elif prop == "C08":
        huge(P, "b32", J, tier, "h_b32_enc", CPUS, b32["e"])
    elif prop == "C09":
        huge(P, "b32", J, tier, "h_b32_dec", CPUS, b32["d"], 8, whole=[200], bad=[(16384, 1)])
    elif prop == "C10":
        huge(P, "b32", J, tier, "h_b32_check", CPUS, b32["c"], 8, scale=2, whole=[300, 600], bad=[(16384, 1)])
    elif prop == "C13":
        huge(P, "uni", J, tier, "h_uni_ascii", CPUS, lambda v, n: (n, 0), vs=hx, scale=4, w=64, whole=[1000], bad=[(16384, 1)])
    elif prop == "C14":
        huge(P, "uni", J, tier, "h_uni_utf32", CPUS, lambda v, n: (n,), vs=hx, w=16, bad=[(4096, 1)])
    elif prop == "C15":
        for h in ("h_uni_swap16", "h_uni_swap32"):
            huge(P, "uni", J, tier, h, CPUS, lambda v, n: (n, n, 0), vs=hx)
            huge(P, "uni", J, tier, h, CPUS[-1:], lambda v, n: (n, n, 1), vs=hx)
    elif prop == "C21":
        for c, m, st, vs in (("b64", lambda v, n: (v, n), 4, (0, 3)), ("b32", lambda v, n: (v, n), 8, (1, 2)), ("hex", lambda v, n: (n,), 2, hx)):
            huge(P, c, J, tier, "h_%s_inplace" % c, CPUS if not q else CPUS[-1:], m, st, vs[:1] if q else vs, bad=[(16384, 1)])
    elif prop == "C22":
        for c in ("b64", "b32", "hex"):
            for v in range(4) if c != "hex" else range(2):
                for n in [80, 100, 128, 200, 256, 512, 1000] if q else [80, 100, 128, 200, 255, 256, 257, 511, 512, 1000, 2048, 4096]:
                    for p, w in windows(n, 24, True):
                        P.add(c, J, "h_%s_round" % c, (v, n, p, w), CPUS[(n // 8 + p + v) % 4:][:1] if q else CPUS)
            huge(P, c, J, tier, "h_%s_round" % c, CPUS if not q else CPUS[-1:], lambda v, n: (v, n), 1, (0, 1) if c == "hex" else (2, 1), 12)


# ---- functional groups ---------------------------------------------------------------------------

def enc(P, c, judge, tier, variant=STD, cpus=CPUS, small=False):
    q = tier == "quick"
    top = (60 if small else 112) if q else 272
    vs = {"b64": range(4), "b32": range(4), "hex": range(2)}[c]
    dl = {"b64": b64_dl, "b32": b32_dl, "hex": lambda v, n: 2 * n}[c]
    h = "h_%s_enc" % c
    for v in vs:
        for n in range(0, top):
            P.add(c, judge, h, (v, n, dl(v, n), 0), cpus, variant, need={1})
        # as str; destination one too short, and longer than needed
        for n in [0, 1, 2, 5, 6, 7, 12, 15, 16, 24, 31, 33, 50, 64, 97]:
            P.add(c, judge, h, (v, n, dl(v, n) + n % 5, 1), cpus, variant)
            if n:
                P.add(c, judge, h, (v, n, dl(v, n) - 1, n % 2), cpus[-1:], variant, need={2})
        for n in [127, 128, 129, 160, 191, 192, 255, 256, 257, 300, 511, 512, 513, 1024] + ([] if q else list(range(273, 400)) + [2047, 2048, 2049, 3000]):
            P.add(c, judge, h, (v, n, dl(v, n), 0), cpus if n < 300 or not q else cpus[-1:], variant)
        for n in long_sizes(q, top):
            if n % len(vs) == v or not q:
                P.add(c, judge, h, (v, n, dl(v, n), 0), cpus[-1:] if n % 8 or n > 1000 else cpus[n // 8 % 3:][:1], variant)
        for n in [4095, 4097] if q else [4095, 4096, 4097, 8191, 16385]:
            P.add(c, judge, h, (v, n, dl(v, n), 0), cpus[-1:] if q else cpus, variant)
        for off in [0, 2, 4, 7, 8, 15, 16]:
            P.add(c, judge, h, (v, 50 + off, dl(v, 50 + off), 0), cpus[-1:] if q else cpus, variant, off=off)
    if not q:
        P.add(c, judge, h, (0, 65537, dl(0, 65537), 0), ["avx2"], variant)
    if c != "hex":
        for v in vs:
            P.add(c, judge, "h_%s_charset" % c, (v,), cpus[:1], variant, need={1})


def enc_own(P, c, judge, tier, variant=STD, cpus=CPUS):
    q = tier == "quick"
    vs = {"b64": range(4), "b32": range(4), "hex": range(2)}[c]
    ns = [0, 1, 2, 3, 4, 5, 6, 7, 10, 15, 16, 17, 24, 31, 33, 48, 63, 100] if q else list(range(0, 70)) + [96, 100, 127, 130, 255, 256, 300]
    for v in vs:
        for n in ns:
            for form in range(5):
                P.add(c, judge, "h_%s_enc_own" % c, (v, n, form), cpus[-1:] if q or n % 8 else cpus, variant, need={1})


def dec_window_sizes(q):
    return ([256, 512, 1000, 4096] if q else [256, 257, 511, 512, 513, 1000, 1024, 2048, 4096, 4100, 16384, 65540])


def dec(P, c, judge, tier, variant=STD, cpus=CPUS, small=False):
    q = tier == "quick"
    top = {"b64": 50 if small else 76, "b32": 42 if small else 60, "hex": 60 if small else 84}[c]
    if not q:
        top = {"b64": 200, "b32": 140, "hex": 200}[c]
    h = "h_%s_dec" % c
    if c == "hex":
        for n in range(0, top):
            for form in range(4):
                if form == 0 or form == 2 or n % 3 == 0 or not q:
                    P.add(c, judge, h, (n, n // 2, form), cpus if form == 0 or not q else cpus[n % 4:][:1], variant, need={1, 2})
            if n % 4 == 2:
                P.add(c, judge, h, (n, n // 2 + 3, 0), cpus[-1:], variant)
                P.add(c, judge, h, (n, n // 2 - 1, 0), cpus[-1:], variant)
        for n in [96, 97, 98, 128, 130, 192, 194, 200]:
            P.add(c, judge, h, (n, n // 2, 0), cpus, variant)
        for n in dec_window_sizes(q):
            n = n // 2 * 2
            for p, w in windows(n, 48, q):
                P.add(c, judge, h, (n, n // 2, 0, p, w), cpus if n < 600 or not q else cpus[-1:], variant)
        long_text(P, c, judge, tier, h, cpus, variant, lambda v, n: (n, n // 2, n % 4 if n % 3 == 0 else 0), top)
        for off in [0, 2, 4, 7, 8, 15, 16]:
            P.add(c, judge, h, (50 + off * 2, 25 + off, 0), cpus[-1:] if q else cpus, variant, off=off)
        return
    size = {"b64": lambda n: n // 4 * 3 + n % 4, "b32": lambda n: n // 8 * 5 + n % 8}[c]
    for v in range(4):
        for n in range(0, top):
            pc = cpus if not q or v < 2 or n < 40 else cpus[n % 2::2]
            P.add(c, judge, h, (v, n, size(n), 0), pc, variant, need={1, 2})
        for n in range(0, 40):
            P.add(c, judge, h, (v, n, size(n), 1), cpus[n % 4:][:1] if q else cpus, variant)
        # every destination length around the result
        for n in [4, 8, 16, 24, 40] + ([] if q else [12, 20, 32, 48, 64, 72]):
            for dl in range(max(0, size(n) - 7), size(n) + 2):
                P.add(c, judge, h, (v, n, dl, 0), cpus[-1:], variant)
        for n in [96, 97, 100, 128, 131, 160] + ([] if q else [192, 193, 200, 256]):
            P.add(c, judge, h, (v, n, size(n), 0), cpus[-1:] if q else cpus, variant)
        for n in dec_window_sizes(q):
            for p, w in windows(n, 48, q):
                P.add(c, judge, h, (v, n, size(n), 0, p, w), cpus[-1:] if q else cpus, variant)
        for off in [0, 2, 4, 8, 15, 16]:
            P.add(c, judge, h, (v, 40 + off, size(40 + off), 0), cpus[-1:] if q else cpus, variant, off=off)
    long_text(P, c, judge, tier, h, cpus, variant, lambda v, n: (v, n, size(n), 0), top)


def dec_own(P, c, judge, tier, variant=STD, cpus=CPUS):
    q = tier == "quick"
    ns = [0, 1, 2, 3, 4, 5, 7, 8, 12, 16, 20, 24, 32, 33, 40, 56] if q else list(range(0, 72)) + [96, 128]
    for v in range(4) if c != "hex" else [None]:
        for n in ns:
            for form in range(3):
                p = (n, form) if v is None else (v, n, form)
                P.add(c, judge, "h_%s_dec_own" % c, p, cpus[-1:] if q or n % 8 else cpus, variant, need={1, 2})


def chk(P, c, judge, tier, variant=STD, cpus=CPUS):
    q = tier == "quick"
    h = "h_%s_check" % c
    top = {"b64": 84, "b32": 72, "hex": 110}[c] if q else {"b64": 260, "b32": 200, "hex": 260}[c]
    for v in range(4) if c != "hex" else [None]:
        for n in range(0, top):
            P.add(c, judge, h, (n, 0) if v is None else (v, n), cpus if not q or v in (0, 3, None) or n < 48 else cpus[n % 2::2], variant, need={1, 2})
            if v is None and n % 5 == 0:
                P.add(c, judge, h, (n, 1), cpus[-1:], variant)
        for n in [96, 97, 127, 128, 129, 160, 192, 200]:
            P.add(c, judge, h, (n, 0) if v is None else (v, n), cpus[-1:] if q else cpus, variant)
        for n in dec_window_sizes(q):
            for p, w in windows(n, 48, q):
                P.add(c, judge, h, (n, 0, p, w) if v is None else (v, n, p, w), cpus[-1:] if q and n > 600 else cpus, variant)
        for off in [0, 2, 4, 8, 15, 16]:
            P.add(c, judge, h, (60 + off, 0) if v is None else (v, 60 + off), cpus[-1:] if q else cpus, variant, off=off)
    long_text(P, c, judge, tier, h, cpus, variant, lambda v, n: (n, n // 3 % 2) if v is None else (v, n), top)


def declen(P, c, judge, tier, cpus=CPUS, variant=STD):
    q = tier == "quick"
    for v in range(4):
        for n in list(range(0, 50 if q else 140)) + [64, 96, 100, 128]:
            P.add(c, judge, "h_%s_declen" % c, (v, n), cpus[-1:] if q else cpus, variant, need={1, 2})


def lens(P, judge, variant=STD, cs=("b64", "b32", "hex"), feats=None, cpus=("sse2",)):
    for c in cs:
        f = feats or c
        if c == "hex":
            P.add(f, judge, "h_hex_len", (0,), list(cpus), variant, need={1})
            P.add(f, judge, "h_hex_len", (1,), list(cpus), variant, need={2})
        else:
            for v in range(4):
                for w in range(2):
                    P.add(f, judge, "h_%s_len" % c, (v, w), list(cpus), variant, need={1})


def forgiving(P, judge, tier, variant=STD, cpus=CPUS, feats="b64"):
    q = tier == "quick"
    h = "h_b64_forgiving"
    for form in range(3):
        # every subset of whitespace positions
        for n in range(0, 8 if q else 11):
            P.add(feats, judge, h, (n, form, 0), cpus[-1:] if form else cpus, variant, need={1, 2})
        # at most one whitespace character, anywhere
        for n in ([9, 12, 15, 17, 20, 33, 36] if q else list(range(8, 50)) + [64, 68, 80]):
            P.add(feats, judge, h, (n, form, 1), cpus[-1:] if q and n % 4 else cpus, variant)
        # none
        for n in list(range(9, 50 if q else 140)):
            P.add(feats, judge, h, (n, form, 2), cpus[(n + form) % 4:][:1] if q else cpus, variant)
        # a run of whitespace at a given place
        for n in [24, 32, 40, 44, 72]:
            for k in [1, 2, 3, 4, 7, 33]:
                for at in [0, 1, n // 2 - 1, n - k - 2, n - k]:
                    if at >= 0 and at + k <= n and (not q or (n + at + k + form) % 3 == 0):
                        P.add(feats, judge, h, (n, form, 3, at, k), cpus if not q else cpus[(n + k + at) % 4:][:1], variant)
        for n in [100, 300] if q else [100, 101, 102, 103, 300, 1000, 4096]:
            for at in [5, n // 2, n - 7]:
                for k in [1, 2, 3]:
                    lo = max(0, min(n - 40, at - 20))
                    P.add(feats, judge, h, (n, form, 3, at, k, lo, 40), cpus[-1:] if q else cpus, variant)
    for n in [1, 2, 4, 8, 20]:
        P.add(feats, judge, h, (n, 3, 2), cpus[-1:], variant)


def uuid_parse(P, judge, tier, variant=STD, cpus=CPUS, feats="uuid"):
    h = "h_uuid_parse"
    for f in (0, 1, 2, 10, 11, 12):
        # (the longer ones: a form's length after an overflow of 8 or 16 bits, and several forms in a row)
        for n in list(range(0, 64 if tier == "quick" else 300)) + [64, 72, 76, 90] * (tier == "quick") + [k + m for k in (256, 512, 65536) for m in (0, 32, 36, 38, 45)]:
            big = (n, f % 10) in ((32, 0), (32, 1), (36, 0), (36, 2), (38, 0), (45, 0))
            P.add(feats, judge, h, (n, f), cpus if big else cpus[-1:], variant, need={1, 2})
            if big:
                for off in [0, 2, 3, 8, 15]:
                    P.add(feats, judge, h, (n, f), cpus, variant, off=off)


def uuid_format(P, judge, tier, variant=STD, cpus=CPUS, feats="uuid"):
    for hy in (0, 1):
        for up in (0, 1):
            for how in (0, 1, 2):
                P.add(feats, judge, "h_uuid_format", (hy, up, how), cpus, variant, need={1})
            for off in [0, 2, 3, 8, 15]:
                P.add(feats, judge, "h_uuid_format", (hy, up, 0), cpus, variant, off=off)


def ascii(P, judge, tier, variant=STD, cpus=CPUS, feats="uni"):
    q = tier == "quick"
    h = "h_uni_ascii"
    for n in range(0, 140 if q else 330):
        P.add(feats, judge, h, (n, 0), cpus, variant, need={1, 2})
        P.add(feats, judge, h, (n, 1), cpus[n % 4:][:1] if q else cpus, variant)
    for n in [160, 192, 255, 256, 257, 300]:
        P.add(feats, judge, h, (n, 0), cpus, variant)
    for n in [512, 1000, 4096, 4099] if q else [512, 1000, 1024, 2048, 4095, 4096, 4099, 16384, 65537]:
        for p, w in windows(n, 100):
            P.add(feats, judge, h, (n, 0, p, w), cpus if n < 5000 else cpus[-1:], variant)
    for n in long_sizes(q, 140 if q else 330):
        for p, w in windows(n, 100, n > 1000):
            P.add(feats, judge, h, (n, n % 2, p, w), cpus[(n + p) % 4:][:1] if q else cpus, variant)
    for off in range(0, 34):
        P.add(feats, judge, h, (70 + off % 3, 0), cpus, variant, off=off)


def utf32(P, judge, tier, variant=STD, cpus=CPUS, feats="uni"):
    q = tier == "quick"
    for n in list(range(0, 40 if q else 72)) + [48, 64]:
        P.add(feats, judge, "h_uni_utf32", (n,), cpus, variant, need={1, 2})
    for n in [64, 100, 257, 1000] if q else [64, 100, 101, 128, 256, 257, 1000, 1024, 4096, 4097]:
        for p, w in windows(n, 20):
            P.add(feats, judge, "h_uni_utf32", (n, p, w), cpus, variant)
    for n in [n for n in long_sizes(q, 40 if q else 72) if n < 200 or n % 2]:
        for p, w in windows(n, 20, True):
            P.add(feats, judge, "h_uni_utf32", (n, p, w), cpus[(n + p) % 4:][:1] if q else cpus, variant)
    for off in range(0, 9):
        P.add(feats, judge, "h_uni_utf32", (19,), cpus, variant, off=off)


def swap(P, judge, tier, variant=STD, cpus=CPUS, feats="uni"):
    q = tier == "quick"
    for h, k in (("h_uni_swap16", 2), ("h_uni_swap32", 1)):
        for n in list(range(0, 66 * k if q else 150 * k)) + [255, 256, 257, 512, 1000, 1024, 4097]:
            P.add(feats, judge, h, (n, n, 0), cpus, variant, need={1})
            P.add(feats, judge, h, (n, n, 1), cpus, variant, need={1})
            if n % 7 == 1:
                P.add(feats, judge, h, (n, n + 5, 0), cpus, variant)
                P.add(feats, judge, h, (n, n - 1, 0), cpus, variant)
        for n in long_sizes(q, 66 * k if q else 150 * k):
            P.add(feats, judge, h, (n, n, n % 2), cpus[n // 2 % 4:][:1] if q else cpus, variant)
        for off in range(0, 17):
            P.add(feats, judge, h, (37, 37, 0), cpus, variant, off=off)
            P.add(feats, judge, h, (37, 37, 1), cpus, variant, off=off)


def inplace(P, judge, tier, variant=STD, cpus=CPUS, cs=("b64", "b32", "hex"), feats=None):
    q = tier == "quick"
    for c in cs:
        h = "h_%s_inplace" % c
        f = feats or c
        top = {"b64": 70, "b32": 60, "hex": 84}[c] if q else {"b64": 200, "b32": 150, "hex": 220}[c]
        for v in range(4) if c != "hex" else [None]:
            for n in range(0, top):
                p = (n,) if v is None else (v, n)
                P.add(f, judge, h, p, cpus if not q or v is None or v in (0, 3) else cpus[(n + v) % 4:][:1], variant, need={1, 2})
            for n in [96, 128, 160] + dec_window_sizes(q):
                for p, w in windows(n, 40, q):
                    p = (n, p, w) if v is None else (v, n, p, w)
                    P.add(f, judge, h, p, cpus[-1:] if q else cpus, variant)
        long_text(P, f, judge, tier, h, cpus, variant, lambda v, n: (n,) if v is None else (v, n), top, 40) if feats is None else None


def round_trip(P, judge, tier, variant=STD, cpus=CPUS, cs=("b64", "b32", "hex", "uuid"), feats=None):
    q = tier == "quick"
    for c in cs:
        h = "h_%s_round" % c
        f = feats or c
        if c == "uuid":
            for hy in (0, 1):
                for up in (0, 1):
                    P.add(f, judge, h, (hy, up), cpus, variant, need={1})
            continue
        top = {"b64": 50, "b32": 50, "hex": 70}[c] if q else {"b64": 160, "b32": 130, "hex": 160}[c]
        for v in range(4) if c != "hex" else range(2):
            for n in range(0, top):
                if q and n > 36 and n % 2 == v // 2 and variant == STD:
                    continue
                P.add(f, judge, h, (v, n), cpus if not q or n % 3 == v % 3 else cpus[-1:], variant, need={1, 2} if c == "b64" else {1})
            for n in [64] if q else [64, 80, 96, 100, 128]:
                P.add(f, judge, h, (v, n), cpus[-1:], variant)


def append(P, judge, tier, variant=STD, cpus=CPUS, cs=("b64", "b32", "hex"), feats=None):
    q = tier == "quick"
    for c in cs:
        f = feats or c
        ns = [0, 1, 3, 4, 5, 8, 16, 17, 24, 32, 40] if q else list(range(0, 42)) + [48, 64, 100]
        ks = [(0, 0), (1, 0), (3, 2), (5, 100), (33, 7)] if q else [(0, 0), (0, 1), (1, 0), (1, 1), (2, 5), (3, 2), (5, 100), (7, 23), (16, 16), (33, 7), (64, 64)]
        for v in range(4) if c != "hex" else range(2):
            for n in ns:
                for i, (k, sp) in enumerate(ks):
                    P.add(f, judge, "h_%s_enc_own" % c, (v, n, 5, k, sp), cpus[-1:], variant, need={1})
                    P.add(f, judge, "h_%s_enc_own" % c, (v, n, 6, k, sp), cpus[-1:], variant)
                    if c == "hex" and v:
                        continue
                    p = (n, 3, k, sp) if c == "hex" else (v, n, 3, k, sp)
                    P.add(f, judge, "h_%s_dec_own" % c, p, cpus[-1:] if i else cpus, variant, need={1, 2})
                    if n % 8 == 0:
                        # spare capacity around the exact result
                        m = n // 2 if c == "hex" else n // 4 * 3 if c == "b64" else n // 8 * 5
                        for sp2 in {max(0, m - 1), m, m + 1}:
                            p = (n, 3, k, sp2) if c == "hex" else (v, n, 3, k, sp2)
                            P.add(f, judge, "h_%s_dec_own" % c, p, cpus[-1:], variant)
        # longer contents, longer texts, spare capacity exact or one less
        for v in range(4) if c != "hex" else range(2):
            for i, (n, k) in enumerate([(70, 70), (100, 65), (130, 300), (200, 129), (40, 4097), (600, 1000)]):
                m = 2 * n if c == "hex" else b64_dl(v, n) if c == "b64" else b32_dl(v, n)
                for sp in [(m, m - 1, m + 1, 0, 3 * m)[(i + v) % 5]] if q else (0, m - 1, m, m + 1, 3 * m):
                    P.add(f, judge, "h_%s_enc_own" % c, (v, n, 5 + (i + v) % 2, k, sp), [cpus[(i + v) % len(cpus)]], variant, need={1})
                if c == "hex" and v:
                    continue
                t = {70: 64, 100: 104, 130: 128, 200: 192, 40: 48, 600: 2048}[n]
                m = t // 2 if c == "hex" else t // 4 * 3 if c == "b64" else t // 8 * 5
                win = () if t < 140 else (t - 40, 40)
                for sp in [(m, m - 1, m + 1, 0, 3 * m)[(i + v) % 5]] if q else (0, m - 1, m, m + 1, 3 * m):
                    p = (t, 3, k, sp) if c == "hex" else (v, t, 3, k, sp)
                    P.add(f, judge, "h_%s_dec_own" % c, p + win, [cpus[(i + v) % len(cpus)]], variant, need={1, 2})


def tails(P, judge, tier, variant=STD, cpus=CPUS, cs=("b64", "b32"), feats=None):
    """destination longer than the result: what lies behind it stays"""
    q = tier == "quick"
    for c in cs:
        f = feats or c
        for v in range(4):
            for n in ([4, 8, 16, 24, 32, 40, 48] if q else list(range(0, 72))):
                pads = ([0, 1, 2] if c == "b64" else [0, 1, 3, 4, 6]) if v < 2 else [0]
                if n == 0 or (v < 2 and n % (4 if c == "b64" else 8)):
                    continue
                for p in pads:
                    for e in [0, 1, 40] if q else [0, 1, 7, 16, 40]:
                        P.add(f, judge, "h_%s_dec_tail" % c, (v, n, p, e), cpus if e == 40 else cpus[-1:], variant, need={1, 2})




def everything(P, judge, tier, variant=STD, cpus=CPUS, small=True, feats=ALL, uu=True, thin=False, tiny=False):
    """a thinner sweep over every entry point, for the properties that concern all of them"""
    q = tier == "quick"
    t = Thin(P, TINY if tiny else THIN) if thin and q else P
    # codecs
    for c in ("b64", "b32", "hex"):
        step = 1 if not q else (2 if not small else 3)
        vs = range(4) if c != "hex" else [None]
        dl = {"b64": b64_dl, "b32": b32_dl, "hex": lambda v, n: 2 * n}[c]
        for v in range(4) if c != "hex" else range(2):
            for i, n in enumerate(range(0, 100 if q else 200)):
                t.add(feats, judge, "h_%s_enc" % c, (v, n, dl(v, n), n % 2 if c != "hex" else n % 3), cpus if (i + v) % step == 0 else cpus[-1:], variant, need={1})
            for n in [1, 5, 16, 30, 33, 64]:
                t.add(feats, judge, "h_%s_enc" % c, (v, n, dl(v, n) - 1, 0), cpus, variant, need={2})
                t.add(feats, judge, "h_%s_enc" % c, (v, n, 0, 1), cpus[-1:], variant)
                t.add(feats, judge, "h_%s_enc" % c, (v, n, dl(v, n) + 3, 0), cpus[-1:], variant)
            t.add(feats, judge, "h_%s_enc" % c, (v, 300, dl(v, 300), 0), cpus, variant)
            t.add(feats, judge, "h_%s_enc" % c, (v, 1025, dl(v, 1025), 0), cpus, variant)
        for v in vs:
            for i, n in enumerate(range(0, 66 if q else 140)):
                k = cpus if (i + (v or 0)) % step == 0 else cpus[-1:]
                if c == "hex":
                    t.add(feats, judge, "h_hex_dec", (n, n // 2, n % 4), k, variant, need={1, 2})
                    t.add(feats, judge, "h_hex_check", (n, n % 2), k, variant, need={1, 2})
                    if n % 4 == 2:
                        t.add(feats, judge, "h_hex_dec", (n, n // 2 - 1, 0), cpus[-1:], variant)
                        t.add(feats, judge, "h_hex_dec", (n, n // 2 + 5, 0), cpus[-1:], variant)
                else:
                    size = n // 4 * 3 + n % 4 if c == "b64" else n // 8 * 5 + n % 8
                    t.add(feats, judge, "h_%s_dec" % c, (v, n, size, 0), k, variant, need={1, 2})
                    t.add(feats, judge, "h_%s_check" % c, (v, n), k, variant, need={1, 2})
                    if n < 44:
                        t.add(feats, judge, "h_%s_dec" % c, (v, n, size, 1), cpus[n % len(cpus):][:1], variant)
                    if n in (4, 8, 16, 24, 40):
                        for d in range(max(0, size - 7), size):
                            t.add(feats, judge, "h_%s_dec" % c, (v, n, d, 0), cpus[-1:], variant)
                    if n < 34:
                        t.add(feats, judge, "h_%s_declen" % c, (v, n), cpus[-1:], variant)
            for n in [200] if thin and q else [256, 1000]:
                for p, w in windows(n, 40, True):
                    if c == "hex":
                        t.add(feats, judge, "h_hex_dec", (n, n // 2, 0, p, w), cpus, variant)
                        t.add(feats, judge, "h_hex_check", (n, 0, p, w), cpus, variant)
                    else:
                        t.add(feats, judge, "h_%s_dec" % c, (v, n, n // 4 * 3 if c == "b64" else n // 8 * 5, 0, p, w), cpus, variant)
                        t.add(feats, judge, "h_%s_check" % c, (v, n, p, w), cpus, variant)
    if variant != "alloc":
        pass
    for n in range(0, 7 if q else 9):
        t.add(feats, judge, "h_b64_forgiving", (n, n % 3, 0), cpus[-1:], variant, need={1, 2})
    for form in range(3):
        for n in [12, 17] if thin and q else [12, 17, 33, 36]:
            t.add(feats, judge, "h_b64_forgiving", (n, form, 1), cpus[-1:], variant)
        for n in range(8, 60, 3 if q else 1):
            t.add(feats, judge, "h_b64_forgiving", (n, form, 2), cpus, variant)
            t.add(feats, judge, "h_b64_forgiving", (n, form, 3, n // 2, 3), cpus, variant)
    for n in [1, 2, 8, 20, 40]:
        t.add(feats, judge, "h_b64_forgiving", (n, 3, 2), cpus[-1:], variant)
    # unicode
    for n in range(0, 100 if q else 200):
        t.add(feats, judge, "h_uni_ascii", (n, n % 2), cpus if n % 2 or not small else cpus[-1:], variant, need={1, 2})
    for n in range(0, 26 if q else 50):
        t.add(feats, judge, "h_uni_utf32", (n,), cpus, variant, need={1, 2})
    for h in ("h_uni_swap16", "h_uni_swap32"):
        for n in list(range(0, 70 if q else 140)) + [257]:
            t.add(feats, judge, h, (n, n, 0), cpus if n % 2 else cpus[:2], variant, need={1})
            t.add(feats, judge, h, (n, n, 1), cpus if n % 2 == 0 else cpus[:2], variant)
            if n % 9 == 1:
                t.add(feats, judge, h, (n, n - 1, 0), cpus, variant)
    if uu:
        for n in list(range(0, 48)):
            for f in (0, 1, 2):
                t.add(feats, judge, "h_uuid_parse", (n, f), cpus if n in (32, 36, 38, 45) else cpus[-1:], variant, need={1, 2})
            t.add(feats, judge, "h_uuid_parse", (n, 10 + n % 3), cpus[-1:], variant)
        for hy in (0, 1):
            for up in (0, 1):
                for how in (0, 1, 2):
                    t.add(feats, judge, "h_uuid_format", (hy, up, how), cpus, variant, need={1})


def offsets(P, judge, tier, variant=STD, cpus=CPUS, feats=ALL):
    for off in [0, 3, 4, 8, 16]:
        for c in ("b64", "b32", "hex"):
            for v in (0, 3) if c != "hex" else (0, 1):
                n = 77 + off
                dl = {"b64": b64_dl, "b32": b32_dl, "hex": lambda v, n: 2 * n}[c](v, n)
                P.add(feats, judge, "h_%s_enc" % c, (v, n, dl, 0), cpus, variant, off=off)
                n = 72 if v == 0 else 75
                if c == "hex":
                    P.add(feats, judge, "h_hex_dec", (n + off, (n + off) // 2, v), cpus, variant, off=off)
                    P.add(feats, judge, "h_hex_check", (n + off, 0), cpus, variant, off=off)
                else:
                    P.add(feats, judge, "h_%s_dec" % c, (v, n, n, 0), cpus, variant, off=off)
                    P.add(feats, judge, "h_%s_check" % c, (v, n), cpus, variant, off=off)
        P.add(feats, judge, "h_b64_forgiving", (41 + off % 3, off % 3, 3, 20, 2), cpus, variant, off=off)
        P.add(feats, judge, "h_uni_ascii", (71 + off, 0), cpus, variant, off=off)
        P.add(feats, judge, "h_uni_utf32", (21,), cpus, variant, off=off)
        for h in ("h_uni_swap16", "h_uni_swap32"):
            P.add(feats, judge, h, (40 + off, 40 + off, off % 2), cpus, variant, off=off)
        for n, f in ((32, 1), (36, 2), (38, 0), (45, 0)):
            P.add(feats, judge, "h_uuid_parse", (n, f), cpus, variant, off=off)
        P.add(feats, judge, "h_uuid_format", (off % 2, 0, 0), cpus, variant, off=off)


VS = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "harness", "src", "vs.rs")


def vector_ops():
    """(harness, smallest token, operand kind) from harness/src/vs.rs"""
    return re.findall(r"^\s*(?:\w+!\(\s*)?(h_v[st]_\w+),\s*(\d),\s*(\d),", open(VS).read(), re.M)


def on_cpus(isa, variant):
    """processors on which a token of this build may be used"""
    built = variant.split("-")[1] if "-" in variant else "sse2"
    return sorted({CPUS[max(isa, CPUS.index(built))], "avx2"})


NARROW = ("h_vs_packus", "h_vs_blend_u16")


def vectors(P, judge, prefix, variants=(STD,)):
    for variant in variants:
        for h, low, kind in vector_ops():
            if not h.startswith(prefix):
                continue
            for isa in range(int(low), 4):
                for w in (1,) if kind == "9" else (0,) if h.startswith(NARROW) else (0, 1):
                    # a token on its own processor, and on the largest
                    P.add("vs", judge, h, (isa, w), on_cpus(isa, variant), variant, need={1})
        if prefix == "h_vs_":
            for isa in range(4):
                P.add("vs", judge, "h_vs_extend", (isa,), on_cpus(isa, variant), variant, need={1})


def other_target(P, tier, variant, cpu):
    """every entry point, and the vector layer, of a build for another processor"""
    J = "a+m+p"
    k = dict(variant=variant, cpus=[cpu])
    everything(P, J, tier, small=False, **k)
    offsets(P, J, tier, **k)
    inplace(P, J, tier, feats=ALL, **k)
    round_trip(Short(P, 40 if tier == "quick" else 72), J, tier, feats=ALL, **k)
    append(P, J, tier, feats=ALL, **k)
    tails(P, J, tier, feats=ALL, **k)
    lens(P, J, feats=ALL, variant=variant, cpus=[cpu])
    for c in ("b64", "b32", "hex"):
        enc_own(P, c, J, tier, **k)
        dec_own(P, c, J, tier, **k)
    far(P, J, tier, variant, cpu)


def far(P, J, tier, variant, cpu):
    """long texts with a window, and long wrong ones, on another processor"""
    def add(h, *p):
        P.add(ALL, J, h, p, [cpu], variant)
    # the model of 32-bit memory has objects of 56 KiB at most
    def lim(n, size):
        return n if cpu == "neon" else min(n, 0xdf00 // size // 8 * 8)
    for n in [4104, 20008] if tier == "quick" else [4104, 20008, 65544, 70008]:
        w, n0 = 24, n
        for v in (0, 3) if tier == "quick" else range(4):
            n = lim(n0, 2)
            add("h_b64_enc", v, n, b64_dl(v, n), 0, n - w, w)
            add("h_b32_enc", v, n, b32_dl(v, n), 0, n - w, w)
            add("h_b64_dec", v, n, n // 4 * 3, 0, n - w, w)
            add("h_b32_dec", v, n, n // 8 * 5, 0, n - w, w)
            add("h_b64_check", v, n, n - w, w)
            add("h_b32_check", v, n, n - w, w)
        n = lim(n0, 2)
        add("h_hex_enc", n % 16 // 8, n, 2 * n, 0, n - w, w)
        add("h_hex_dec", n, n // 2, 0, n - w, w)
        add("h_hex_check", n, 0, n - w, w)
        add("h_uni_ascii", n, 0, n - 64, 64)
        n = lim(n0, 4)
        add("h_uni_utf32", n, n - 16, 16)
        add("h_uni_swap16", n, n, 0, n - w, w)
        add("h_uni_swap32", n, n, 1, n - w, w)
        n = lim(n0, 2)
        add("h_b64_forgiving", n, 1, 4, 76, 2, 0, n - w, w)
    for n, w in ((8192, 96), (16384, 160)):
        m = n + 128
        add("h_b64_dec", 0, m, m // 4 * 3, 0, n - 32, w, 1)
        add("h_b32_dec", 1, m, m // 8 * 5, 0, n - 32, w, 1)
        add("h_b64_check", 1, m, n - 32, w, 1)
        add("h_b32_check", 0, m, n - 32, w, 1)
        add("h_hex_dec", m, m // 2, 0, n - 32, w, 1)
        add("h_hex_check", m, 0, n - 32, w, 1)
        add("h_uni_ascii", m, 0, n - 32, w, 1)
        add("h_uni_utf32", m // 4, n // 4 - 16, w // 4, 1)


# not implemented outside x86 (they panic saying so); the crates do not use them there
X86_ONLY = ("h_vs_mul_hi_", "h_vs_madd", "h_vs_packus", "h_vs_blend_u16", "h_vs_blendv", "h_vs_bitmask", "h_vs_permute_", "h_vs_blend_u32")


def other_vectors(P, tier, variant, cpu):
    J = "a+m+p"
    for h, low, kind in vector_ops():
        for w in (1,) if kind == "9" else (0,) if h.startswith(NARROW) else (0, 1):
            if h.startswith(X86_ONLY):
                P.add("vs", "a+m", h, (0, w), [cpu], variant)
            else:
                P.add("vs", J, h, (0, w), [cpu], variant, need={1})
    for h in re.findall(r"other!\((h_\w+)", open(VS).read()):
        if cpu == "neon" or h.startswith("h_vo_unzip_") and h != "h_vo_unzip_8":
            P.add("vs", J, h, (), [cpu], variant, need={1})
    P.add("vs", J, "h_vs_extend", (0,), [cpu], variant, need={1})
    for w in (0, 1):
        for up in (0, 1):
            P.add("vs", J, "h_vt_hex_encode", (0, w, up), [cpu], variant, need={1})
        P.add("vs", J, "h_vt_alsw_decode", (0, w), [cpu], variant, need={1})
    for w in (0, 1, 2):
        P.add("vs", J, "h_vt_hex_decode", (0, w), [cpu], variant, need={1, 2})
    P.add("vs", J, "h_vt_unhex", (), [cpu], variant, need={1})
    P.add("vs", J, "h_vt_alsw_scalar", (), [cpu], variant, need={1})
    P.add("vs", J, "h_vt_native", (), [cpu], variant, need={1})
    for isa in (0, 4):
        for k in (2, 4, 8):
            for n in range(0, 2 * 32 // k + 3 if tier == "quick" else 100):
                for inp in (0, 1):
                    P.add("vs", J, "h_vt_bswap", (isa, k, n, inp), [cpu], variant, need={1})
    for off in (0, 1, 5, 16, 31):
        for n in list(range(0, 66, 5 if tier == "quick" else 1)) + [100]:
            P.add("vs", J, "h_vt_align", (n,), [cpu], variant, need={1}, off=off)


def vector_text(P, judge, tier, variants=(STD,)):
    q = tier == "quick"
    vectors(P, judge, "h_vt_", variants)
    for variant in variants:
        for isa in range(1, 4):
            c = on_cpus(isa, variant)[-1:]
            for w in (0, 1):
                for up in (0, 1):
                    P.add("vs", judge, "h_vt_hex_encode", (isa, w, up), c, variant, need={1})
                P.add("vs", judge, "h_vt_alsw_decode", (isa, w), c, variant, need={1})
            for w in (0, 1, 2):
                P.add("vs", judge, "h_vt_hex_decode", (isa, w), c, variant, need={1, 2})
        for k in range(4):
            P.add("vs", judge, "h_vt_hex_sse2", (0, k), on_cpus(0, variant), variant, need={1})
        P.add("vs", judge, "h_vt_unhex", (), on_cpus(0, variant)[:1], variant, need={1})
        P.add("vs", judge, "h_vt_alsw_scalar", (), on_cpus(0, variant)[:1], variant, need={1})
        P.add("vs", judge, "h_vt_native", (), CPUS + ["avx", "avx2noos"] if "-" not in variant else ["avx2"], variant, need={1})
        for isa in (1, 2, 3, 4):
            for k in (2, 4, 8):
                for n in list(range(0, 2 * 32 // k + 3)) + ([] if q else list(range(2 * 32 // k + 3, 100)) + [1000]):
                    for inp in (0, 1):
                        P.add("vs", judge, "h_vt_bswap", (isa, k, n, inp), on_cpus(min(isa, 3), variant)[-1:], variant, need={1})
        for off in (0, 1, 5, 16, 31):
            for n in list(range(0, 66, 5 if q else 1)) + [100]:
                P.add("vs", judge, "h_vt_align", (n,), on_cpus(0, variant)[:1], variant, need={1}, off=off)


def parallel(P, judge, tier):
    q = tier == "quick"
    h = "h_par_encode"

    def add(v, p, n, dl, form, cpu, *win):
        P.add("par", judge, h, (v, p, n, dl, form) + win, [cpu], "par", need={1})

    for v in range(4):
        # all bytes symbolic where it stays sequential, and at the smallest sizes that do not
        for p in (0, 1, 2, 8):
            for n in (0, 1, 3, 50, 100):
                add(v, p, n, b64_dl(v, n), 0, "avx2")
                if n:
                    P.add("par", judge, h, (v, p, n, b64_dl(v, n) - 1, 0), ["avx2"], "par", need={2})
        for p in (2, 3) if q else (2, 3, 4, 5, 8):
            m = p * 4096
            for n in ([m - 1, m, m + 1, m + 2, p * 4224 + 1] if p == 2 else [m, m + 1, m + 5, p * 4224 + 8]) + ([] if q else [m + k for k in range(3, 13)] + [3 * m, 3 * m + 1, 3 * m + 2]):
                b = n // 3
                cut = (b + p) // p * 3
                # the whole text with concrete bytes except around each cut and at the end
                for at in [0, cut - 20, n - 40] + ([2 * cut - 20] if p > 2 else []):
                    if 0 <= at <= n - 40 and (not q or (v + n + at) % 2 == 0 or at == n - 40):
                        add(v, p, n, b64_dl(v, n), (n + v) % 2, CPUS[(n + v + at) % 4] if at else "avx2", at, 40)
                add(v, p, n, b64_dl(v, n) + 9, 1, "avx2", n - 40, 40)
                for d in (b64_dl(v, n) - 1, b64_dl(v, n) - 5, b64_dl(v, n) - cut // 3 * 4, cut // 3 * 4, 0):
                    P.add("par", judge, h, (v, p, n, d, 0, 0, 8), ["avx2"], "par", need={2})
        # many threads
        if v in (0, 3):
            # lengths where a share is a multiple of 16 or 64 groups and something remains, and where it is not
            p, n = (12, 12 * 4224 + 7) if v else (16, 16 * 4224 + 5)
            add(v, p, n, b64_dl(v, n), v % 2, "ssse3", n - 40, 40)
            p, n = (9, 36866) if v else (10, 40961)
            add(v, p, n, b64_dl(v, n), v % 2, "ssse3", (p // 2 + v) * ((n // 3 + p) // p * 3) - 20, 40)
        if not q:
            p, n = 33, 135170
            b = (n // 3 + p) // p * 3
            for at in (b - 20, p // 2 * b - 20, n - 40):
                add(v, p, n, b64_dl(v, n), v % 2, CPUS[at % 4], at, 40)
        for p, n in ([(5, 20480)] if v % 2 else [(7, 28673)]) if q else [(4, 16385), (6, 24578), (7, 28673), (8, 40000), (16, 65537), (33, 140001)]:
            add(v, p, n, b64_dl(v, n), 0, "avx2", n - 40, 40)
    if not q:
        for v in range(4):
            add(v, 2, 8192 + v, b64_dl(v, 8192 + v), 0, "avx2")


# ---- the properties ---------------------------------------------------------------------------------

def threads(P, judge, tier):
    """the same call in two threads at once, each on symbolic input of its own; the number after t bounds the
    switches between them, which may come at every atomic access to memory both can reach"""
    q = tier == "quick"
    deep = "+t3" if q else "+t4"

    def add(h, p, some=False):
        # x: the second thread uses the sibling alphabet (or case, or format)
        x = "x" if h.startswith(("h_b64", "h_b32", "h_hex_enc", "h_uuid_format")) and h != "h_b64_forgiving" else ""
        for i, c in enumerate(CPUS):
            if not some or not q or i == 3:
                P.add(ALL, judge, h, p, [c + "+t2" + (x if sum(p) % 3 or not q else "")])
        if not q or (p[0] % 2 == 0 and not some):
            P.add(ALL, judge, h, p, ["avx2" + deep + x])

    for v in range(4):
        for n in [5, 16, 31, 48, 70] if q else [0, 1, 5, 12, 16, 24, 31, 33, 48, 64, 70, 100]:
            add("h_b64_enc", (v, n, b64_dl(v, n), 0), n % 5)
            add("h_b32_enc", (v, n, b32_dl(v, n), 0), n % 5)
            if v < 2:
                add("h_hex_enc", (v, n, 2 * n, 0), n % 5)
        for n in [7, 40] if q else [1, 7, 16, 33, 40, 64]:
            add("h_b64_enc_own", (v, n, v), True)
            add("h_b32_enc_own", (v, n, v), True)
            if v < 2:
                add("h_hex_enc_own", (v, n, v), True)
        for n in [24, 44, 68] if q else [16, 24, 36, 44, 68, 132]:
            add("h_b64_dec", (v, n, n // 4 * 3, n // 4 % 2, n - 16, 12))
            add("h_b64_check", (v, n, n - 16, 12), True)
            add("h_b64_inplace", (v, n, n - 16, 12), True)
            m = n // 8 * 8
            add("h_b32_dec", (v, m, m // 8 * 5, m // 8 % 2, m - 16, 8))
            add("h_b32_check", (v, m, m - 16, 8), True)
            add("h_b32_inplace", (v, m, m - 16, 8), True)
            if v == 0:
                add("h_hex_dec", (n, n // 2, 0, n - 8, 8))
                add("h_hex_check", (n, n % 8 // 4, n - 8, 8), True)
                add("h_hex_inplace", (n, n - 4, 4), True)
        add("h_b64_dec_own", (v, 4, 0), True)
        add("h_b32_dec_own", (v, 8, 0), True)
    add("h_hex_dec_own", (8, 0), True)
    for form in range(3):
        add("h_b64_forgiving", (6, form, 1), True)
        add("h_b64_forgiving", (36, form, 3, 4, 1), True)
    for hy in (0, 1):
        add("h_uuid_parse", (36 if hy else 32, 0))
        for up in (0, 1):
            for how in range(3):
                add("h_uuid_format", (hy, up, how), how == 1)
    for n in [3, 20, 40, 70]:
        add("h_uni_ascii", (n, n // 10 % 2))
        add("h_uni_utf32", (n // 2,))
        for ip in (0, 1):
            add("h_uni_swap16", (n, n, ip))
            add("h_uni_swap32", (n, n, ip))


def plan(prop, tier):
    P = Plan()
    J = "a%d+m+p" % int(prop[1:])
    if prop == "C01":
        enc(P, "b64", J, tier), enc_own(P, "b64", J, tier)
    elif prop == "C02":
        dec(P, "b64", J, tier), dec_own(P, "b64", J, tier)
    elif prop == "C03":
        chk(P, "b64", J, tier), declen(P, "b64", J, tier)
        lens(P, "a3+a20+p", cs=("b64",))
    elif prop == "C04":
        forgiving(P, J, tier)
    elif prop == "C05":
        enc(P, "hex", J, tier), enc_own(P, "hex", J, tier)
    elif prop == "C06":
        dec(P, "hex", J, tier), dec_own(P, "hex", J, tier)
    elif prop == "C07":
        chk(P, "hex", J, tier)
        inplace(P, J, tier, cs=("hex",))
    elif prop == "C08":
        enc(P, "b32", J, tier), enc_own(P, "b32", J, tier)
    elif prop == "C09":
        dec(P, "b32", J, tier), dec_own(P, "b32", J, tier)
    elif prop == "C10":
        chk(P, "b32", J, tier), declen(P, "b32", J, tier)
        lens(P, "a10+a20+p", cs=("b32",))
    elif prop == "C11":
        uuid_parse(P, J, tier)
    elif prop == "C12":
        uuid_format(P, J, tier)
        round_trip(P, J, tier, cs=("uuid",))
    elif prop == "C13":
        ascii(P, J, tier)
    elif prop == "C14":
        utf32(P, J, tier)
    elif prop == "C15":
        swap(P, J, tier)
    elif prop == "C16":
        everything(P, "a16+m", tier, small=False)
        offsets(P, "a16+m", tier)
        append(P, "a16+m", "quick", feats=ALL)
        tails(P, "a16+m", "quick", feats=ALL, cpus=CPUS[-1:])
    elif prop == "C17":
        # run-time dispatch on every processor, and builds with the features fixed at compile time
        # and without std: all run on the same inputs
        on = CPUS + ["sse2@alloc", "ssse3@alloc-ssse3", "sse41@alloc-sse41", "avx2@alloc-avx2", "avx2@std-avx2"]
        if tier != "quick":
            on += ["ssse3@std-ssse3", "avx2@std-ssse3", "sse41@std-sse41", "avx2@std-sse41"]
        everything(Rel(P.groups, on), "r+f", tier, thin=True)
        everything(Rel(P.groups, ["sse2", "sse3", "avx", "avx2noos"]), "r+f", "quick", thin=True, tiny=True)
        # the first call resolves the function, later ones use what it left behind
        everything(Rel(P.groups, ["sse2", "sse2+w", "ssse3+w", "sse41+w", "avx2+w"]), "r+f", "quick", thin=True, tiny=True)
    elif prop == "C18":
        everything(P, "a18+m+p", tier, small=False)
        everything(P, "a18+m+p", tier, variant="checked")
        tails(P, "a18+m+p", tier, feats=ALL)
        lens(P, "p", feats=ALL)
        lens(P, "p", feats=ALL, variant="checked")
    elif prop == "C19":
        append(P, J, tier)
    elif prop == "C20":
        lens(P, "a20+p")
        lens(P, "a20+p", variant="checked")
        declen(P, "b64", "a20+p", tier), declen(P, "b32", "a20+p", tier)
    elif prop == "C21":
        inplace(P, J, tier)
        for c in ("b64", "b32", "hex"):
            for v in range(4) if c != "hex" else [None]:
                for n in range(0, 44):
                    P.add(c, J, "h_%s_dec" % c, (n, n // 2, 1 + 2 * (n % 2)) if v is None else (v, n, n, 1), CPUS[-1:])
    elif prop == "C22":
        round_trip(P, J, tier)
    elif prop == "C23":
        parallel(P, J, tier)
    elif prop == "C24":
        vectors(P, "a24+m+p+f", "h_vs_", (STD, "alloc-avx2", "nightly") if tier == "quick" else (STD, "alloc-avx2", "alloc-sse41", "alloc-ssse3", "nightly", "checked"))
    elif prop == "C25":
        vector_text(P, "a24+a25+m+p+f", tier, (STD, "nightly") if tier == "quick" else (STD, "alloc-avx2", "alloc-ssse3", "nightly", "checked"))
    elif prop == "C26":
        other_target(P, tier, "neon", "neon")
        other_vectors(P, tier, "neon", "neon")
    elif prop == "C27":
        other_target(P, tier, "wasm", "simd128")
        other_vectors(P, tier, "wasm", "simd128")
        if tier == "quick":
            everything(P, "a+m+p", tier, variant="wasm-scalar", cpus=["simd128"], thin=True)
            round_trip(Short(P, 20), "a+m+p", tier, variant="wasm-scalar", cpus=["simd128"], feats=ALL)
            lens(P, "a+m+p", feats=ALL, variant="wasm-scalar", cpus=["simd128"])
        else:
            other_target(P, tier, "wasm-scalar", "simd128")
    elif prop == "C28":
        threads(P, "a+m+p+f", tier)
        everything(P, "a+m+p", "quick", cpus=["sse2+w", "ssse3+w", "sse41+w", "avx2+w"], thin=True, tiny=True)
        # hundreds of earlier calls, for what counts them in eight bits
        for i, (h, p) in enumerate([("h_b64_enc", (0, 40, 56, 0)), ("h_b64_enc", (3, 40, 54, 0)), ("h_b64_dec", (1, 40, 40, 0)), ("h_b64_dec", (2, 40, 40, 0)), ("h_b64_check", (2, 40)),
                                    ("h_b64_forgiving", (6, 0, 0)), ("h_b64_forgiving", (20, 1, 2)), ("h_b32_enc", (0, 32, 56, 0)), ("h_b32_dec", (1, 32, 32, 0)), ("h_b32_check", (0, 34)),
                                    ("h_hex_enc", (0, 34, 68, 0)), ("h_hex_enc", (1, 34, 68, 0)), ("h_hex_dec", (40, 20, 0)), ("h_hex_check", (36, 0)), ("h_b64_inplace", (0, 40)),
                                    ("h_b32_inplace", (1, 24)), ("h_hex_inplace", (40,)), ("h_uni_ascii", (70, 0)), ("h_uni_utf32", (10,)), ("h_uni_swap16", (40, 40, 0)),
                                    ("h_uni_swap32", (20, 20, 1)), ("h_uuid_parse", (36, 0)), ("h_uuid_parse", (32, 1)), ("h_uuid_format", (1, 0, 0)), ("h_uuid_format", (0, 1, 0))]):
            P.add(ALL, "a+m+p", h, p, [c + "+w64" for c in (CPUS[(i + 3) % 4:][:1] if tier == "quick" else CPUS)])
    else:
        raise SystemExit("no plan for " + prop)
    longest(P, prop, J, tier)
    return list(P.groups.values())
