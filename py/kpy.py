#!/usr/bin/python3.12
"""C34 C35 C38 C41: exhaustive exploration of the pure-Python modems and helpers in /repo/kom_py.

Same method and same conventions as mc/src/core.rs: a scenario is a deterministic function in which
everything that varies is ctx.choose(label, n); the complete tree of choices is enumerated by
prefix replay, in several processes.
"""
import contextlib
import io
import json
import math
import multiprocessing
import os
import signal
import sys
import time
from fractions import Fraction

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
sys.dont_write_bytecode = True
sys.path[:0] = [os.path.join(REPO, "kom_py"), os.path.join(HERE, "target", "pymod")]
import numpy as np  # noqa: E402

T0 = time.time()
TOL = 1e-6
HANG_S = 120


class Bad(Exception):
    pass


class Diverged(Exception):
    pass


class Hang(BaseException):
    pass


def ensure(c, msg):
    if not c:
        raise Bad(msg() if callable(msg) else msg)


class Ctx:
    def __init__(self, prefix):
        self.prefix, self.trace, self.steps, self.obs = prefix, [], 0, []

    def choose(self, label, n):
        assert n >= 1, "harness: empty choice " + label
        i = len(self.trace)
        c = 0
        if i < len(self.prefix):
            if self.prefix[i][1] != n:
                raise Diverged(f"point {i}: recorded {self.prefix[i]}, now {label}({n})")
            c = self.prefix[i][2]
        self.trace.append((label, n, c))
        return c

    def pick(self, label, items):
        return items[self.choose(label, len(items))]

    def bits(self, label, n):
        if n == 0:
            return []
        v = self.choose(label, 1 << n)
        return [bool(v >> (n - 1 - i) & 1) for i in range(n)]


def run_once(fn, prefix):
    ctx = Ctx(prefix)
    err = None
    signal.alarm(HANG_S)
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            fn(ctx)
        if len(ctx.trace) < len(prefix):
            raise Diverged("execution ended early")
    except Diverged as e:
        signal.alarm(0)
        return ctx, None, str(e)
    except Bad as e:
        err = str(e)
    except Hang:
        err = f"no result after {HANG_S} s: the call does not end"
    except Exception as e:  # noqa: BLE001
        tb = e.__traceback__
        while tb.tb_next:
            tb = tb.tb_next
        err = f"raised {type(e).__name__}: {e} at {tb.tb_frame.f_code.co_filename}:{tb.tb_lineno}"
    signal.alarm(0)
    return ctx, err, None


def _alarm(*_):
    raise Hang()


def dfs(fn, root, deadline):
    """Explore every execution whose choices start with `root`."""
    st = dict(executions=0, states=0, steps=0, distinct=set(), violation=None, error=None, capped=False, sample=None)
    stack = [list(root)]
    while stack:
        p = stack.pop()
        ctx, err, div = run_once(fn, p)
        st["executions"] += 1
        st["states"] += len(ctx.trace) - len(p) + 1
        st["steps"] += ctx.steps
        st["distinct"].update(ctx.obs)
        if st["sample"] is None:
            st["sample"] = " ".join(f"{a}={c}/{n}" for a, n, c in ctx.trace)
        if div:
            st["error"] = div
            break
        if err:
            st["violation"] = (err, ctx.trace)
            break
        for i in range(len(ctx.trace) - 1, len(p) - 1, -1):
            a, n, _ = ctx.trace[i]
            for c in range(n - 1, 0, -1):
                stack.append(ctx.trace[:i] + [(a, n, c)])
        if time.time() > deadline:
            st["capped"] = True
            break
    return st


def tasks_of(fn):
    """Split the tree into prefixes: all values of the first two choices."""
    out = []
    ctx, err, div = run_once(fn, [])
    if err or div or not ctx.trace:
        return [[]]
    a, n, _ = ctx.trace[0]
    for c in range(n):
        p = [(a, n, c)]
        ctx, err, div = run_once(fn, p)
        if err or div or len(ctx.trace) < 2:
            out.append(p)
        else:
            b, m, _ = ctx.trace[1]
            out.extend(p + [(b, m, k)] for k in range(m))
    return out


_FN = None


def _work(a):
    root, deadline = a
    return root, dfs(_FN, root, deadline)


def explore(fn, deadline):
    global _FN
    _FN = fn
    ts = tasks_of(fn)
    tot = dict(executions=0, states=1, steps=0, distinct=set(), violation=None, error=None, capped=False, samples=[])
    n = int(os.environ.get("KMC_THREADS") or os.cpu_count() or 4)
    with multiprocessing.get_context("fork").Pool(n, initializer=lambda: signal.signal(signal.SIGALRM, _alarm)) as pool:
        for root, st in pool.imap_unordered(_work, [(t, deadline) for t in ts], chunksize=max(1, len(ts) // (n * 16))):
            for k in ("executions", "states", "steps"):
                tot[k] += st[k]
            if len(tot["distinct"]) < 1000000:
                tot["distinct"] |= st["distinct"]
            tot["capped"] |= st["capped"]
            if len(tot["samples"]) < 2 and st["sample"]:
                tot["samples"].append(st["sample"])
            if st["error"]:
                tot["error"] = st["error"]
            if st["violation"]:
                tot["violation"] = st["violation"]
            if st["error"] or st["violation"]:
                pool.terminate()
                break
    return tot


# ------------------------------------------------------------------ messages

def de_bruijn(k):
    seen, v, w, n = {0}, [False] * k, 0, 1 << k
    while True:
        for b in (1, 0):
            x = (w << 1 | b) & (n - 1)
            if x not in seen:
                seen.add(x)
                v.append(bool(b))
                w = x
                break
        else:
            return v


DB = de_bruijn(6) + de_bruijn(10) + de_bruijn(14)


def content(n):
    return [DB[i % len(DB)] for i in range(n)]


def pattern(k, n):
    if k == 0:
        return content(n)
    if k == 1:
        return [not b for b in content(n)]
    if k in (2, 3):
        return [k == 2] * n
    if k == 4:
        return [i % 2 == 0 for i in range(n)]
    return [bin(i).count("1") % 2 == 1 or i % 37 == 0 for i in range(n)]


PATTERNS = 6


def message(ctx, exh, lens, even=False):
    k = ctx.choose("msg", 1 + (PATTERNS if lens else 0))
    if k == 0:
        n = ctx.choose("len", exh + 1)
        return ctx.bits("bits", 2 * n if even else n)
    n = ctx.pick("len", lens)
    return pattern(k - 1, 2 * n if even else n)


def form(ctx, m):
    """The ways a caller holds a message."""
    return [lambda: list(m), lambda: np.array(m, dtype=bool), lambda: tuple(m)][ctx.choose("container", 3)]()


def unchanged(c, m, what):
    if c is not None:
        ensure([bool(b) for b in c] == list(m), lambda: f"{what}: the caller's message was changed")


def held_as(k, x):
    """The ways a caller holds a received signal."""
    return [lambda: x, lambda: [float(v) for v in x], lambda: tuple(x), lambda: np.array(x, dtype=float)][k % 4]()


def bs(m):
    s = "".join("01"[bool(b)] for b in m[:40])
    return s if len(m) <= 40 else f"{s}...({len(m)})"


def same_bits(ctx, what, got, want):
    got = [bool(b) for b in got]
    ctx.steps += len(got)
    ctx.obs.append(hash(tuple(got)))
    ensure(len(got) == len(want), lambda: f"{what}: {len(got)} bits instead of {len(want)}")
    for i, (a, b) in enumerate(zip(got, want)):
        ensure(a == b, lambda: f"{what}: bit {i} of {len(want)} is {a} instead of {b}")


def close(ctx, what, got, want, tol=TOL):
    got = np.asarray(list(got))
    want = np.asarray(want)
    ctx.steps += len(got)
    ctx.obs.append(hash(got.tobytes()))
    ensure(len(got) == len(want), lambda: f"{what}: {len(got)} samples instead of {len(want)}")
    if len(got):
        bad = ~(np.abs(got - want) <= tol)
        if bad.any():
            i = int(np.argmax(bad))
            raise Bad(f"{what}: sample {i} of {len(got)} is {got[i]} instead of {want[i]}")


def carrier(fc, fs, n):
    """2 pi fc i / fs for i < n, reduced exactly to one turn."""
    f = Fraction(fc) / fs
    return np.array([2 * math.pi * float(f * i % 1) for i in range(n)])


# ------------------------------------------------------------------ C34

def tri(b):
    return 1.0 if b else -1.0


def bpsk(ctx, m, sps, rs, fc, cont=None):
    import psk
    fs = sps * rs
    what = f"BPSK fs={fs} rs={rs} fc={fc} message {bs(m)}"
    tx = psk.tx_bpsk(m if cont is None else cont, fs, rs, fc)
    ph = carrier(fc, fs, len(m) * sps)
    close(ctx, what, tx, np.repeat([tri(b) for b in m], sps) * np.cos(ph) if len(m) else [])
    unchanged(cont, m, what)
    rx = held_as(len(m), tx)
    before = list(rx)
    same_bits(ctx, what + " received", psk.rx_bpsk(rx, fs, rs, fc), m)
    ensure(list(rx) == before, lambda: f"{what}: the caller's signal was changed")


def qpsk(ctx, m, sps, rs, fc, cont=None):
    import psk
    fs = sps * rs
    what = f"QPSK fs={fs} rs={rs} fc={fc} message {bs(m)}"
    tx = psk.tx_qpsk(m if cont is None else cont, fs, rs, fc)
    c = np.array(psk.tx_baseband_qpsk(m))
    ph = carrier(fc, fs, len(m) // 2 * sps)
    want = (np.repeat(c, sps) * np.exp(1j * ph)).real if len(m) else []
    close(ctx, what, tx, want)
    unchanged(cont, m, what)
    rx = held_as(len(m), tx)
    before = list(rx)
    same_bits(ctx, what + " received", psk.rx_qpsk(rx, fs, rs, fc), m)
    ensure(list(rx) == before, lambda: f"{what}: the caller's signal was changed")


def cdma(ctx, m, spc, rs, fc, cont=None):
    import cdma as c
    key = [1, 1, -1, -1] * 4
    sps = 16 * spc
    fs = sps * rs
    what = f"CDMA fs={fs} rs={rs} fc={fc} message {bs(m)}"
    tx = c.tx_bpsk_cdma(m if cont is None else cont, fs, rs, fc)
    n = len(m) * sps
    ph = carrier(fc, fs, n)
    chips = np.repeat(key, spc)
    want = np.repeat([tri(b) for b in m], sps) * np.tile(chips, len(m)) * np.cos(ph) if n else []
    close(ctx, what, tx, want)
    unchanged(cont, m, what)
    rx = held_as(len(m), tx)
    before = list(rx)
    same_bits(ctx, what + " received", c.rx_bpsk_cdma(rx, fs, rs, fc), m)
    ensure(list(rx) == before, lambda: f"{what}: the caller's signal was changed")


RATES = [900, 1, 7, 450]


def bpsk_carriers(sps, rs):
    """Carriers from 0 to half the sample rate with any non-zero sample correlation."""
    fs = sps * rs
    v = [0, fs / 2, fs / 4, 0.1 * fs, 0.37 * fs, rs, rs / 2, 0.499 * fs, 2 * rs, 0.013 * fs]
    out = []
    for f in v:
        if f > fs / 2 or f in out:
            continue
        # the samples of no symbol may all vanish
        ph = carrier(f, fs, sps * 60)
        e = (np.cos(ph).reshape(60, sps) ** 2).sum(axis=1)
        if e.min() > 1e-3:
            out.append(f)
    return out


def half_cycle(sps, rs):
    fs = sps * rs
    ks = [k for k in range(1, sps) if k < sps]
    ks = ks if len(ks) < 12 else ks[:4] + ks[len(ks) // 2 - 1 : len(ks) // 2 + 2] + ks[-4:]
    return [k * rs / 2 for k in ks]


def c34(deep):
    lens = list(range(0, 70)) + [127, 128, 129, 255, 256, 500]
    q = lambda a, b: b if deep else a  # noqa: E731

    def baseband(ctx):
        import psk
        if ctx.choose("modem", 2) == 0:
            m = message(ctx, q(11, 15), list(range(200)))
            tx = psk.tx_baseband_bpsk(form(ctx, m))
            ensure([complex(x) for x in tx] == [complex(tri(b)) for b in m], f"baseband BPSK of {bs(m)}: {tx[:8]}")
            same_bits(ctx, "baseband BPSK", psk.rx_baseband_bpsk(tx), m)
        else:
            m = message(ctx, q(5, 7), list(range(100)), even=True)
            tx = psk.tx_baseband_qpsk(form(ctx, m))
            ensure(len(tx) == len(m) // 2, f"baseband QPSK of {bs(m)}: {len(tx)} symbols")
            for i, c in enumerate(tx):
                ensure((c.real > 0) == m[2 * i] and (c.imag > 0) == m[2 * i + 1] and abs(abs(c.real) - abs(c.imag)) < 1e-12 and abs(abs(c) - abs(tx[0])) < 1e-12 and abs(c) > 0,
                       f"baseband QPSK of {bs(m)}: symbol {i} is {c}")
            same_bits(ctx, "baseband QPSK", psk.rx_baseband_qpsk(tx), m)

    def bpsk_grid(ctx):
        sps = ctx.pick("sps", q([1, 2, 3, 4, 5, 7, 8, 10, 16, 49, 50], list(range(1, 65))))
        rs = ctx.pick("rs", RATES)
        bpsk(ctx, content(40), sps, rs, ctx.pick("fc", bpsk_carriers(sps, rs)))

    def bpsk_msgs(ctx):
        sps, rs, fc = ctx.pick("cfg", [(4, 10, 10), (3, 7, 0), (10, 900, 1800)])
        m = message(ctx, q(8, 12), lens)
        bpsk(ctx, m, sps, rs, fc, form(ctx, m))

    def qpsk_grid(ctx):
        sps = ctx.pick("sps", q([3, 4, 5, 7, 8, 10, 16, 49], list(range(3, 65))))
        rs = ctx.pick("rs", RATES)
        qpsk(ctx, content(40), sps, rs, ctx.pick("fc", half_cycle(sps, rs)))

    def qpsk_msgs(ctx):
        sps, rs, fc = ctx.pick("cfg", [(4, 10, 10), (3, 7, 7), (10, 900, 1350)])
        m = message(ctx, q(4, 6), lens, even=True)
        qpsk(ctx, m, sps, rs, fc, form(ctx, m))

    def cdma_grid(ctx):
        spc = ctx.pick("spc", q([2, 3, 4, 5, 8], list(range(2, 33))))
        rs = ctx.pick("rs", RATES)
        fs = 16 * spc * rs
        k = ctx.choose("fc", 9)
        fc = [0, 16 * rs, 8 * rs, fs / 4, 0.1 * fs, 0.371 * fs, 2.5 * rs, 0.49 * fs, rs][k]
        n = np.abs((np.cos(carrier(fc, fs, 40 * 16 * spc)).reshape(40, -1) ** 2).sum(axis=1)).min()
        if n < 1e-3:
            return
        cdma(ctx, content(40), spc, rs, fc)

    def cdma_msgs(ctx):
        spc, rs, fc = ctx.pick("cfg", [(2, 10, 0), (3, 1000, 2500)])
        m = message(ctx, q(7, 10), list(range(0, 60)))
        cdma(ctx, m, spc, rs, fc, form(ctx, m))

    def long(ctx):
        n = ctx.pick("n", q([1000, 1023, 1024, 4097], [1000, 1023, 1024, 4097, 16384, 16386]))
        k = ctx.choose("modem", 3)
        p = ctx.choose("pattern", 2)
        if k == 0:
            bpsk(ctx, pattern(p, n), 5, 20, 20)
        elif k == 1:
            qpsk(ctx, pattern(p, n // 2 * 2), 6, 50, 75)
        else:
            cdma(ctx, pattern(p, n // 4), 2, 3, 12)

    def correlate(ctx):
        """Disturbed symbols: each decided on its own samples only, by the sign of its correlation."""
        import cdma as c
        import psk
        k = ctx.choose("modem", 3)
        sps, rs, fc = [(4, 10, 10), (4, 10, 10), (32, 3, 12)][k]
        fs = sps * rs
        n = 3
        d = ctx.choose("damage", 3 ** (4 if k < 2 else 2) if k < 2 else 9)
        at = ctx.choose("symbol", n)
        m = ctx.bits("bits", n if k != 1 else 2 * n)
        tx = np.array([psk.tx_bpsk, psk.tx_qpsk, c.tx_bpsk_cdma][k](m, fs, rs, fc), dtype=float)
        step = sps // (4 if k < 2 else 2)
        for j in range(4 if k < 2 else 2):
            f = [1.0, -2.0, 0.0][d // 3 ** j % 3]
            tx[at * sps + j * step : at * sps + (j + 1) * step] *= f
        ph = carrier(fc, fs, n * sps)
        if k == 2:
            tx2 = tx * np.tile(np.repeat([1, 1, -1, -1] * 4, sps // 16), n)
        else:
            tx2 = tx
        i = (tx2 * np.cos(ph)).reshape(n, sps).sum(axis=1)
        qq = (tx2 * -np.sin(ph)).reshape(n, sps).sum(axis=1)
        dec = []
        for s in range(n):
            dec.append(i[s])
            if k == 1:
                dec.append(qq[s])
        rx = [psk.rx_bpsk, psk.rx_qpsk, c.rx_bpsk_cdma][k](list(tx), fs, rs, fc)
        ensure(len(rx) == len(dec), f"{len(rx)} bits instead of {len(dec)}")
        ctx.steps += len(rx)
        for x, (got, v) in enumerate(zip(rx, dec)):
            if abs(v) > 1e-9:
                ensure(bool(got) == (v > 0), f"modem {k}, message {bs(m)}, damage {d} in symbol {at}: bit {x} is {got} but its correlation {v}")

    def loud_neighbours(ctx):
        """Symbols of very different strength in one signal: each is still decided on its own samples."""
        import cdma as c
        import psk
        k = ctx.choose("modem", 3)
        sps, rs, fc = [(4, 10, 10), (8, 10, 10), (32, 3, 12)][k]
        fs = sps * rs
        n = 4
        ratio = ctx.pick("ratio", [1e3, 1e9, 1e18, 1e40, 1e150])
        loud = ctx.bits("loud", n)
        m = ctx.bits("bits", n if k != 1 else 2 * n)
        tx = np.array([psk.tx_bpsk, psk.tx_qpsk, c.tx_bpsk_cdma][k](m, fs, rs, fc), dtype=float)
        tx = tx * np.repeat([ratio if x else 1.0 for x in loud], sps)
        rx = [psk.rx_bpsk, psk.rx_qpsk, c.rx_bpsk_cdma][k](list(tx), fs, rs, fc)
        same_bits(ctx, f"modem {k}, symbols {bs(loud)} louder by {ratio}", rx, m)

    def long_symbols(ctx):
        """Many samples per symbol."""
        sps = ctx.pick("sps", q([67, 100, 127, 128, 333, 512, 1000, 1024, 4096, 9999], [67, 100, 127, 128, 255, 257, 333, 441, 512, 1000, 1024, 1025, 2048, 4096, 9999, 16384, 30001]))
        rs = ctx.pick("rs", [1, 7, 900])
        k = ctx.choose("modem", 3)
        if k == 0:
            fc = ctx.pick("fc", [0, 1, 0.5, 2, 10, 0.1 * sps, 0.37 * sps, 0.25 * sps, 33.25]) * rs
            bpsk(ctx, content(12), sps, rs, fc)
        elif k == 1:
            fc = ctx.pick("half cycles", [1, 2, 3, 10, sps // 3, sps // 2 - 1, sps - 1]) * rs / 2
            qpsk(ctx, content(12), sps, rs, fc)
        else:
            spc = max(2, sps // 16)
            fc = ctx.pick("fc", [0, 1, 8, 16, 0.1 * spc * 16, 33.25]) * rs
            if fc <= 8 * spc * rs:
                cdma(ctx, content(6), spc, rs, fc)

    def every_length(ctx):
        n = ctx.choose("n", q(420, 2100))
        k = ctx.choose("modem", 3)
        p = ctx.pick("pattern", [0, 5])
        if k == 0:
            bpsk(ctx, pattern(p, n), 4, 10, 13)
        elif k == 1:
            qpsk(ctx, pattern(p, 2 * n), 3, 8, 4)
        else:
            cdma(ctx, pattern(p, n // 3), 2, 5, 21)

    def number_types(ctx):
        """Rates and carriers as Python and numpy numbers."""
        ty = ctx.pick("type", [int, float, np.int64, np.float64, np.int32])
        ty2 = ctx.pick("carrier type", [float, np.float64, int])
        k = ctx.choose("modem", 3)
        sps, rs, fc = ctx.pick("cfg", [(4, 10, 10), (50, 900, 1800), (64, 256, 2048)])
        m = content(ctx.pick("n", [0, 2, 16, 50]))
        import cdma as c
        import psk
        sps = sps * 16 if k == 2 else sps
        f = [psk.tx_bpsk, psk.tx_qpsk, c.tx_bpsk_cdma][k]
        r = [psk.rx_bpsk, psk.rx_qpsk, c.rx_bpsk_cdma][k]
        want = f(m, sps * rs, rs, fc)
        tx = f(m, ty(sps * rs), ty(rs), ty2(fc))
        close(ctx, f"modem {k} with {ty.__name__} rates", tx, want, 1e-9)
        same_bits(ctx, f"modem {k} with {ty.__name__} rates", r(tx, ty(sps * rs), ty(rs), ty2(fc)), m)

    def history(ctx):
        """Calls never influence later calls."""
        cfgs = [(bpsk, 6, 4, 10, 10), (bpsk, 6, 5, 10, 10), (bpsk, 3, 4, 10, 5), (qpsk, 6, 4, 10, 10), (qpsk, 8, 6, 10, 10), (cdma, 3, 2, 10, 20), (cdma, 4, 3, 10, 20), (cdma, 3, 2, 7, 20), (bpsk, 0, 4, 10, 10)]
        for _ in range(q(3, 4)):
            f, n, sps, rs, fc = ctx.pick("call", cfgs)
            f(ctx, content(n), sps, rs, fc)

    def far(ctx):
        """Late symbols at carriers without a short period."""
        n = q(3000, 20000)
        k = ctx.choose("modem", 2)
        sps, rs, fc = ctx.pick("cfg", [(5, 20, 33.3), (8, 900, 1234.5), (3, 7, 0.1), (10, 441, 1000 / 3), (4, 10, 10.001), (7, 1, 3.14159)])
        if k == 0:
            bpsk(ctx, content(n), sps, rs, fc)
        else:
            cdma(ctx, content(n // 16), 2 + sps % 3, rs, fc)

    def rates(ctx):
        """Every symbol rate with several numbers of samples per symbol."""
        k = ctx.choose("modem", 3)
        sps = ctx.pick("sps", q([3, 5, 7, 10, 12], [2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 21]))
        if sps == 2 and k == 1:
            return
        first = 1 + 50 * ctx.choose("rates", q(14, 120))
        for rs in range(first, first + 50):
            if k == 0:
                bpsk(ctx, [True, False, False], sps, rs, 0.1 * sps * rs)
            elif k == 1:
                qpsk(ctx, [True, False, False, False], sps, rs, rs)
            elif sps < 8:
                cdma(ctx, [True, False], sps, rs, 0.1 * 16 * sps * rs)

    def usual_rates(ctx):
        """Every division of usual sample rates into a whole number of samples per symbol."""
        fs = ctx.pick("fs", [8000, 11025, 16000, 22050, 44100, 48000, 96000, 192000, 250000, 1000000, 2400000])
        k = ctx.choose("modem", 3)
        divs = [d for d in range(2, 161) if fs % d == 0]
        if k == 2:
            divs = [d for d in range(32, 321, 16) if fs % d == 0]
        for d in divs:
            if k == 0:
                bpsk(ctx, [True, False, False], d, fs // d, 0.1 * fs)
            elif k == 1 and d > 2:
                qpsk(ctx, [True, False, False, False], d, fs // d, fs // d)
            elif k == 2:
                cdma(ctx, [True, False], d // 16, fs // d, 0.1 * fs)

    def levels(ctx):
        """Received signals of any strength, samples of very different strength within a symbol."""
        import cdma as c
        import psk
        k = ctx.choose("modem", 3)
        sps, rs, fc = [(5, 10, 7.3), (5, 10, 7.3), (32, 3, 12.7)][k]
        fs = sps * rs
        n = 24
        gain = 10.0 ** ctx.pick("gain", [0, -12, -6, -3, 1, 3, 4, 6, 9, 12, 15, 100, -100])
        mix = ctx.choose("mix", 6)
        i = np.arange(n * sps)
        x = np.sin(0.731 * i) + 0.4 * ((i * i % 29) * 0.2 - 1.0)
        x = x * [np.ones(len(i)), 10.0 ** (i % 7), 10.0 ** -(i % 5), np.where(i % 3 == 0, 1e4, 1.0), np.where(i // sps % 3 == 0, 1e8, 1.0), np.where(i % 11 == 0, -1e5, 1e-5)][mix] * gain
        ph = carrier(Fraction(fc).limit_denominator(10), fs, n * sps)
        y = x * np.tile(np.repeat([1, 1, -1, -1] * 4, sps // 16), n) if k == 2 else x
        a = (y * np.cos(ph)).reshape(n, sps)
        b = (y * -np.sin(ph)).reshape(n, sps)
        dec = []
        for t in range(n):
            for z in ([a[t], b[t]] if k == 1 else [a[t]]):
                dec.append((z.sum(), np.abs(z).sum()))
        rx = [psk.rx_bpsk, psk.rx_qpsk, c.rx_bpsk_cdma][k](held_as(mix + k, x), fs, rs, fc)
        ensure(len(rx) == len(dec), f"{len(rx)} bits instead of {len(dec)}")
        ctx.steps += len(rx)
        ctx.obs.append(hash(tuple(bool(r) for r in rx)))
        for t, (got, (v, m)) in enumerate(zip(rx, dec)):
            if abs(v) > 1e-7 * m:
                ensure(bool(got) == (v > 0), f"modem {k}, gain {gain}, mix {mix}: bit {t} is {got} but its correlation {v}")

    def very_far(ctx):
        """More than 2**24 samples."""
        import cdma as c
        import psk
        k = ctx.choose("modem", q(3, 4))
        n = 2 ** 24 + 2 ** 13
        if k == 3:
            n = 2 ** 23  # QPSK is a plain Python loop
        p, d = 10007, 100003  # carrier as a fraction of the sample rate
        sps = [4096, 2048 * 16, 4096, 4096][k]
        rs = 3
        fs = sps * rs
        fc = fs * p / d
        m = content(n // sps)
        n = len(m) * sps
        if k < 2:
            tx = np.asarray([psk.tx_bpsk, c.tx_bpsk_cdma][k](m, fs, rs, fc))
            ensure(len(tx) == n, f"{len(tx)} samples instead of {n}")
            ph = 2 * np.pi * ((np.arange(n, dtype=np.int64) * p) % d) / d
            chips = np.tile(np.repeat([1, 1, -1, -1] * 4, sps // 16), len(m)) if k == 1 else 1.0
            want = np.repeat([tri(b) for b in m], sps) * chips * np.cos(ph)
            bad = np.abs(tx - want) > 1e-5
            ensure(not bad.any(), lambda: f"modem {k}: sample {int(np.argmax(bad))} of {n} is {tx[np.argmax(bad)]} instead of {want[np.argmax(bad)]}")
            ctx.steps += n
            ctx.obs.append(k)
        else:
            ph = 2 * np.pi * ((np.arange(n, dtype=np.int64) * p) % d) / d
            x = np.repeat([tri(b) for b in m], sps) * np.cos(ph)
            same_bits(ctx, f"BPSK of {n} samples", (psk.rx_bpsk if k == 2 else psk.rx_qpsk)(x, fs, rs, fc)[:: k - 1], m)

    return [
        ("very-far", "a transmission and a reception of 2^24 + 2^13 samples at a carrier without a short period: every sample, every bit", very_far),
        ("rates", "every symbol rate 1..700 (thorough 6000) x 5 (thorough 12) samples per symbol or chip, three modems: 2 to 4 bits", rates),
        ("usual-rates", "11 usual sample rates divided into every whole number of samples per symbol up to 160 (CDMA: of samples per chip up to 20), three modems", usual_rates),
        ("levels", "13 strengths from 1e-100 to 1e100 x 6 mixtures of strong and weak samples and symbols, three receivers: every bit is the sign of its symbol's correlation", levels),
        ("long-symbols", "67 to 9999 (thorough 30001) samples per symbol x 3 symbol rates x up to 9 carriers, three modems", long_symbols),
        ("every-length", "every message length to 419 (thorough 2099) bits in 2 patterns, three modems", every_length),
        ("number-types", "rates as int, float, np.int32, np.int64, np.float64 and carriers as 3 types: the same waveform and message", number_types),
        ("history", "every sequence of 3 (thorough 4) calls over 9 configurations of the three modems", history),
        ("far", "3000 (thorough 20000) symbols at 6 carriers without a short common period", far),
        ("baseband", "BPSK and QPSK at baseband: all messages up to 11 / 10 bits and every length 0..199 in 6 patterns, from lists, tuples and numpy arrays", baseband),
        ("bpsk-grid", "11 (thorough 64) samples per symbol x 4 symbol rates x up to 10 carriers: waveform and loopback of 40 bits", bpsk_grid),
        ("bpsk-messages", "all messages up to 8 bits, every length 0..69 and six longer in 6 patterns, 3 configurations, 3 containers", bpsk_msgs),
        ("qpsk-grid", "8 (thorough 62) samples per symbol x 4 symbol rates x up to 11 half-cycle carriers: waveform and loopback of 40 bits", qpsk_grid),
        ("qpsk-messages", "all messages up to 8 bits, every even length 0..138 and six longer in 6 patterns, 3 configurations, 3 containers", qpsk_msgs),
        ("cdma-grid", "5 (thorough 31) samples per chip x 4 symbol rates x 9 carriers: waveform and loopback of 40 bits", cdma_grid),
        ("cdma-messages", "all messages up to 7 bits, every length 0..59 in 6 patterns, 2 configurations, 3 containers", cdma_msgs),
        ("loud-neighbours", "4 symbols, every choice of loud ones and every message x 5 ratios of strength up to 10^150: every bit is that sent", loud_neighbours),
        ("correlation", "all messages of 3 symbols with every damage (each quarter or half kept, reversed and doubled, or erased) to one of them: every bit is the sign of its own symbol's correlation", correlate),
        ("long", "1000 to 4097 bits through each modem", long),
    ], ["waveforms are compared within 1e-6", "no noise", "correlations within 1e-9 of zero may be decided either way"]


# ------------------------------------------------------------------ C35

def ham_sym(n):
    return np.array([0.54 - 0.46 * math.cos(2 * math.pi * i / (n - 1)) for i in range(n)]) if n > 1 else np.ones(n)


def ssca_ref(s, N, Np):
    a, g = ham_sym(Np), ham_sym(N)
    out = np.zeros((N, Np), dtype=complex)
    s = np.array(s, dtype=float)
    m = np.arange(Np)
    i = np.arange(N)
    for j in range(Np):
        k = j - Np // 2
        col = np.array([
            (a * s[t : t + Np] * np.exp(-2j * np.pi * (k * m % Np) / Np)).sum() * np.exp(-2j * np.pi * (k * t % Np) / Np) * s[t + Np // 2] * g[t]
            for t in range(N)
        ])
        for q in range(N):
            f = q - N // 2
            out[q, j] = (col * np.exp(-2j * np.pi * (f * i % N) / N)).sum()
    return out


def map_ref(sx, N, Np):
    out = {}
    for q in range(N):
        for k in range(Np):
            f = Fraction(k, 2 * Np) - Fraction(q, 2 * N)
            a = Fraction(k, Np) + Fraction(q, N)
            out.setdefault((math.floor(Np * (f + Fraction(1, 2))), math.floor(N * a)), []).append(sx[q, k])
    return out


def rich(n):
    i = np.arange(n)
    return np.sin(0.7 * i) + 0.3 * np.cos(2.1 * i) + 0.01 * (i * i % 17) - 0.05


def c35(deep):
    q = lambda a, b: b if deep else a  # noqa: E731

    def pows(ctx):
        import util
        if ctx.choose("range", 2) == 0:
            lo = 512 * ctx.choose("block", q(64, 1024))
            xs = range(max(1, lo), lo + 512)
        else:
            e = ctx.choose("exponent", q(130, 600))
            xs = [2 ** e + d for d in range(-3, 4) if 2 ** e + d >= 1] + [3 * 2 ** e, 2 ** e + 2 ** (e // 2)]
        for x in xs:
            ctx.steps += 2
            n, f = util.next_power_of_2(x), util.floor_power_of_2(x)
            p = 1
            while p < x:
                p *= 2
            ensure(n == p, f"next_power_of_2({x}) is {n} instead of {p}")
            w = p if p == x else p // 2
            ensure(f == w, f"floor_power_of_2({x}) is {f} instead of {w}")

    def chunks(ctx):
        import util
        n = ctx.choose("items", 41)
        k = 1 + ctx.choose("n", 12)
        src = ctx.choose("source", 4)
        fill = ctx.pick("fill", [None, 0, False, "x"])
        items = list(range(100, 100 + n))
        it = [items, tuple(items), iter(items), (x for x in items)][src]
        kw = {} if fill is None and src % 2 else {"fillvalue": fill}
        got = list(util.chunk(it, k, **kw))
        want = [tuple(items[i : i + k]) + (fill,) * (k - len(items[i : i + k])) for i in range(0, n, k)]
        ctx.steps += len(got)
        ctx.obs.append(hash(tuple(got)))
        ensure([tuple(g) for g in got] == want, f"chunk of {n} items by {k}, fill {fill}: {got}")

    def shift(ctx):
        import util
        n = ctx.choose("len", 130)
        kind = ctx.choose("kind", 3)
        x = [list(range(n)), np.arange(n) * 1.5 - 3, np.exp(1j * np.arange(n))][kind]
        g = util.fftshift(x)
        ctx.steps += n
        w = np.fft.fftshift(np.array(x)) if n else np.array([])
        ensure(len(g) == n and np.array_equal(np.asarray(g), w), f"fftshift of {n} items: {list(g)[:8]}")

    def nrz(ctx):
        import util
        m = message(ctx, 8, list(range(0, 100)))
        g = list(util.bitz_to_nrz(form(ctx, m)))
        ctx.steps += len(g)
        ensure([float(x) for x in g] == [tri(b) for b in m] and [float(util.bit_to_nrz(b)) for b in m] == [tri(b) for b in m], f"bitz_to_nrz({bs(m)}) is {g[:8]}")

    def dbs(ctx):
        import util
        e = ctx.choose("exponent", 201) - 100
        m = 1 + ctx.choose("mantissa", 9)
        x = m * 10.0 ** e
        ctx.steps += 4
        ensure(abs(util.db(x) - 10 * math.log10(x)) < 1e-9 * (1 + abs(e)), f"db({x}) is {util.db(x)}")
        ensure(abs(util.undb(util.db(x)) / x - 1) < 1e-10, f"undb(db({x})) is {util.undb(util.db(x))}")
        y = e * 3.7 + m
        ensure(abs(util.db(util.undb(y)) - y) < 1e-9, f"db(undb({y})) is {util.db(util.undb(y))}")
        ensure(abs(util.undb(y) / 10 ** (y / 10) - 1) < 1e-10, f"undb({y}) is {util.undb(y)}")
        a = np.array([x, 1.0, 100.0])
        ensure(np.allclose(util.db(a), 10 * np.log10(a)) and np.allclose(util.undb(util.db(a)), a), f"db/undb of an array {a}")

    def secs(ctx):
        import util
        r = ctx.choose("range", 2)
        if r == 0:
            lo = 600 * ctx.choose("block", q(300, 3000))
            xs = range(lo, lo + 600)
        else:
            d, h, mi, s = ctx.pick("d", [0, 1, 7, 364, 365, 366, 730, 731, 1461]), ctx.pick("h", [0, 1, 6, 12, 23]), ctx.pick("m", [0, 1, 59]), ctx.pick("s", [0, 1, 30, 59, 0.5])
            xs = [d * 86400 + h * 3600 + mi * 60 + s]
        unit = {"Y": 365.25 * 86400, "d": 86400, "h": 3600, "m": 60, "s": 1}
        lim = {"d": 366, "h": 24, "m": 60, "s": 60}
        for x in xs:
            g = util.secs_to_str(x)
            ctx.steps += 1
            if x == 0:
                continue
            tot, last = 0, "Z"
            for part in g.split(":"):
                u, v = part[-1], int(part[:-1])
                ensure(u in unit and "YdhmsZ".index(u) < "YdhmsZ".index(last) or last == "Z" or "Ydhms".index(u) > "Ydhms".index(last), f"secs_to_str({x}) is {g}")
                ensure(v >= 0 and (u == "Y" or v < lim[u]), f"secs_to_str({x}) is {g}")
                tot += v * unit[u]
                last = u
            # a quarter day of the year may be cut off by whole units
            ensure(int(tot) == int(x), f"secs_to_str({x}) is {g}: {tot} seconds")

    def chirps(ctx):
        import chirp as c
        rate = ctx.pick("rate", [1, 0.1, 10, 8, 3, 0.5, 1000])
        spp = ctx.pick("samples", [1, 2, 3, 10, 50, 100, 257, 1500])
        fs = spp * rate
        f0 = ctx.pick("f0", [0.0, 1.0, -2.0, 0.25, 6.0]) * rate
        f1 = ctx.pick("f1", [0.0, 1.0, 6.0, 2.5, -3.0]) * rate
        ph = ctx.pick("phase", [0, math.pi / 2, 1.0, -2.5])
        T = 1 / rate
        n = int(fs / rate)
        t = np.array([0.0]) if n == 1 else np.arange(n) * T / (n - 1)
        want = np.sin(2 * np.pi * (f0 * t + (f1 - f0) * t * t / (2 * T)) + ph)
        if ctx.choose("function", 2) == 0:
            g = c.chirpz(rate, fs, f0, f1, phase_rad=ph) if ph else c.chirpz(rate, fs, f0, f1)
            close(ctx, f"chirpz(rate={rate}, fs={fs}, {f0} to {f1}, phase {ph})", g, want)
        else:
            g = c.chirpCtr(fs, (f0 + f1) / 2, rate, f1 - f0, ph)
            close(ctx, f"chirpCtr(fs={fs}, centre {(f0 + f1) / 2}, rate={rate}, bandwidth {f1 - f0}, phase {ph})", g, want)

    def energy(ctx):
        import willie
        n = 1 + ctx.choose("n", q(5, 6))
        v = ctx.choose("x", 5 ** n)
        al = [1.0, 0.0, -2.0, 0.5, 1e3]
        x = [al[v // 5 ** i % 5] for i in range(n)]
        y = [x, np.array(x), tuple(x)][ctx.choose("container", 3)]
        w = sum(a * a for a in x) / n
        ctx.steps += n
        ensure(abs(willie.avg_energy(y) - w) <= 1e-9 * (1 + w), f"avg_energy({x}) is {willie.avg_energy(y)} instead of {w}")
        ensure([float(a) for a in willie.scale(y, -2.5)] == [-2.5 * a for a in x], f"scale({x}, -2.5) is {willie.scale(y, -2.5)}")

    def energy_long(ctx):
        import willie
        n = ctx.pick("n", list(range(1, 300)) + [1000, 4096, 10001])
        x = rich(n)
        w = float((x ** 2).mean())
        ctx.steps += n
        ensure(abs(willie.avg_energy(x) - w) <= 1e-9, f"avg_energy of {n} samples is {willie.avg_energy(x)} instead of {w}")

    sizes = [(n, np_) for np_ in (2, 4, 6, 8, 16) for n in range(np_ + 1, q(21, 41)) if n > np_] + [(32, 8), (48, 16), (64, 16)]

    def spectral(ctx):
        import ssca
        N, Np = ctx.pick("size", sizes)
        kind = ctx.choose("signal", 3)
        extra = ctx.choose("extra", 2) * 5
        s = [rich, lambda n: np.where(np.arange(n) * 7 % 5 < 2, 1.0, -1.0), lambda n: 100 - np.arange(n) * 1.0][kind](N + Np + extra)
        src = [s, list(s)][ctx.choose("container", 2)]
        sx = ssca_ref(s, N, Np)
        tol = 1e-9 * np.abs(s).max() ** 2 * N * Np
        g = ssca.ssca(src, N, Np, map_output=False)
        what = f"ssca(N={N}, Np={Np}) of signal {kind}"
        ensure(g.shape == (N, Np), f"{what}: shape {g.shape}")
        ctx.steps += N * Np
        ctx.obs.append(hash(g.tobytes()))
        d = np.abs(g - sx)
        ensure(not (~(d <= tol)).any(), lambda: f"{what}: entry {np.unravel_index(np.argmax(d), d.shape)} is off by {d.max()}")
        m = ssca.ssca(src, N, Np)
        ensure(m.shape == (Np + 1, 2 * N + 1), f"{what} mapped: shape {m.shape}")
        ref = map_ref(sx, N, Np)
        for r in range(Np + 1):
            for c in range(2 * N + 1):
                v = ref.get((r, c))
                ok = m[r, c] == 0 if v is None else any(abs(m[r, c] - x) <= tol for x in v)
                ensure(ok, lambda: f"{what} mapped: cell [{r}, {c}] is {m[r, c]}, expected {v[0] if v else 0}")

    def impulses(ctx):
        import ssca
        N, Np = ctx.pick("size", [(5, 2), (9, 4), (8, 4), (7, 6), (12, 4)])
        n = N + Np
        i = ctx.choose("i", n)
        j = ctx.choose("j", i + 1)
        s = np.zeros(n)
        s[i] = 1
        s[j] += ctx.pick("sign", [1.0, -1.0]) if i != j else 0.0
        g = ssca.ssca(s, N, Np, map_output=False)
        d = np.abs(g - ssca_ref(s, N, Np))
        ctx.steps += N * Np
        ensure(g.shape == (N, Np) and not (~(d <= 1e-9)).any(), f"ssca(N={N}, Np={Np}) of impulses at {i}, {j} is off by {d.max()}")

    def cuts(ctx):
        import ssca
        r, c = ctx.pick("shape", [(1, 1), (1, 2), (2, 1), (2, 2), (1, 3), (3, 1)])
        al = [1, -2j, -3 + 1j, 0.5 + 0.5j, -4]
        a = np.array([[al[ctx.choose("entry", 5)] for _ in range(c)] for _ in range(r)], dtype=complex)
        if ctx.choose("layout", 2):
            a = np.asfortranarray(a)
        p = np.array([[abs(z) ** 2 for z in row] for row in a])
        ctx.steps += r * c
        close(ctx, f"max_cut of {a.tolist()}", ssca.max_cut(a), [10 * math.log10(max(row)) for row in p], 1e-9)
        close(ctx, f"dcs of {a.tolist()}", ssca.dcs(a), [10 * math.log10(p[:, j].sum() / p[0, j]) for j in range(c)], 1e-9)

    def pow_types(ctx):
        import util
        e = ctx.choose("exponent", 53)
        ty = ctx.pick("type", [int, np.int64, float, np.float64])
        for x in sorted({max(1, 2 ** e + d) for d in range(-2, 3)} | {2 ** e + 2 ** (e // 2), 3 * 2 ** e // 2, 5 * 2 ** e // 4 or 1}):
            if x > 2 ** 53:
                continue
            ctx.steps += 2
            p = 1
            while p < x:
                p *= 2
            n, f = util.next_power_of_2(ty(x)), util.floor_power_of_2(ty(x))
            ensure(n == p and f == (p if p == x else p // 2), f"powers of two around {x} as {ty.__name__}: {n} and {f}")

    def chunks_wide(ctx):
        import itertools
        import util
        k = ctx.pick("n", [1, 2, 3, 7, 16, 31, 32, 33, 64, 100, 128, 1000])
        if ctx.choose("unbounded", 2):
            taken = []
            g = util.chunk((taken.append(i) or i for i in itertools.count()), k, fillvalue=0)
            for i in range(q(5, 50)):
                ensure(tuple(next(g)) == tuple(range(i * k, i * k + k)), f"chunk of an unbounded source by {k}: group {i}")
                ensure(len(taken) <= (i + 2) * k, f"chunk by {k} took {len(taken)} items for {i + 1} groups")
            ctx.steps += k * 5
            return
        n = ctx.pick("items", [0, 1, k - 1, k, k + 1, 2 * k - 1, 2 * k, 2 * k + 1, 10 * k + k // 2, 257, 1000])
        kind = ctx.choose("kind", 3)
        items = [list(range(n)), [None] * n, "abcdefg" * (n // 7)][kind]
        got = [tuple(g) for g in util.chunk(items, k, fillvalue=-7)]
        items = list(items)
        want = [tuple(items[i : i + k]) + (-7,) * (k - len(items[i : i + k])) for i in range(0, len(items), k)]
        ctx.steps += len(got)
        ctx.obs.append(hash(tuple(got)))
        ensure(got == want, f"chunk of {n} items of kind {kind} by {k}: {got[:3]}")

    def shift_wide(ctx):
        import util
        n = ctx.pick("len", q([255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025, 4095, 4096, 4097, 10001], list(range(130, 1500))))
        kind = ctx.choose("kind", 4)
        x = [list(range(n)), np.arange(n) * 1.5 - 3, np.exp(1j * np.arange(n)), np.arange(n, dtype=np.int32)][kind]
        keep = np.array(x)
        g = util.fftshift(x)
        ctx.steps += n
        ensure(np.array_equal(np.asarray(g), np.fft.fftshift(keep)), f"fftshift of {n} items")
        ensure(np.array_equal(np.array(x), keep), f"fftshift of {n} items changed its argument")
        ensure(np.array_equal(np.fft.ifftshift(np.asarray(g)), keep), f"fftshift of {n} items is not undone by ifftshift")

    def secs_wide(ctx):
        import util
        unit = {"Y": 365.25 * 86400, "d": 86400, "h": 3600, "m": 60, "s": 1}
        y = ctx.choose("years", q(45, 200))
        d = ctx.pick("days", [0, 1, 30, 99, 100, 182, 363, 364])
        for h in (0, 1, 9, 10, 12, 22, 23):
            for mi in (0, 1, 9, 10, 30, 58, 59):
                for s in (0, 1, 9, 10, 30, 59, 0.25, 59.75):
                    x = int(y * 365.25) * 86400 + d * 86400 + h * 3600 + mi * 60 + s
                    if x == 0:
                        continue
                    g = util.secs_to_str(x)
                    ctx.steps += 1
                    tot = sum(int(part[:-1]) * unit[part[-1]] for part in g.split(":"))
                    order = [part[-1] for part in g.split(":")]
                    ensure(order == sorted(order, key="Ydhms".index) and len(set(order)) == len(order), f"secs_to_str({x}) is {g}")
                    ensure(int(tot) == int(x), f"secs_to_str({x}) is {g}: {tot} seconds")

    def chirps_long(ctx):
        import chirp as c
        rate = ctx.pick("rate", [1, 0.1, 8, 1000])
        spp = ctx.pick("samples", [2000, 4096, 4097, 10000, 44100, 65537])
        fs = spp * rate
        f0, f1 = ctx.pick("f", [(0.0, 100.0), (50.0, -50.0), (333.3, 333.3), (0.37 * spp, 0.01 * spp), (1.0, 0.49 * spp)])
        f0, f1 = f0 * rate, f1 * rate
        ph = ctx.pick("phase", [0, 1.0])
        n = int(fs / rate)
        u = np.arange(n) / (n - 1)
        cyc = (f0 / rate) * u + (f1 - f0) / rate * u * u / 2
        want = np.sin(2 * np.pi * cyc + ph)
        if ctx.choose("function", 2) == 0:
            close(ctx, f"chirpz(rate={rate}, fs={fs}, {f0} to {f1}, phase {ph})", c.chirpz(rate, fs, f0, f1, phase_rad=ph), want)
        else:
            close(ctx, f"chirpCtr(fs={fs}, {f0} to {f1}, rate={rate}, phase {ph})", c.chirpCtr(fs, (f0 + f1) / 2, rate, f1 - f0, ph), want)

    def energy_wide(ctx):
        import willie
        n = ctx.pick("n", list(range(300, q(520, 2100))) + [65536, 100001])
        kind = ctx.choose("kind", 3)
        x = [rich(n), np.where(np.arange(n) == n - 1, 1000.0, 0.0), np.ones(n) * -3.5][kind]
        keep = x.copy()
        w = float((x ** 2).mean())
        ctx.steps += n
        y = [x, list(x)][ctx.choose("container", 2)]
        ensure(abs(willie.avg_energy(y) - w) <= 1e-9 * (1 + w), f"avg_energy of {n} samples is {willie.avg_energy(y)} instead of {w}")
        ensure(np.array_equal(np.array(y), keep), f"avg_energy of {n} samples changed them")
        z = [complex(a, -2 * a) for a in x[:400]]
        wz = sum(abs(v) ** 2 for v in z) / len(z) / 2
        ensure(abs(willie.avg_energy_iq(z) - wz) <= 1e-9 * (1 + wz), f"avg_energy_iq of {len(z)} samples is {willie.avg_energy_iq(z)} instead of {wz}")

    big = q([(40, 20), (64, 32), (100, 10), (96, 24), (128, 16), (65, 32), (34, 32), (127, 64), (200, 8), (256, 4), (101, 2)],
            [(40, 20), (64, 32), (100, 10), (96, 24), (128, 16), (65, 32), (34, 32), (127, 64), (200, 8), (256, 4), (101, 2), (512, 16), (129, 128), (300, 30), (1000, 4), (256, 64)])

    def check_ssca(ctx, s, N, Np, what):
        import ssca
        sx = ssca_ref(s, N, Np)
        tol = 1e-9 * np.abs(s).max() ** 2 * N * Np + 1e-300
        g = ssca.ssca(s, N, Np, map_output=False)
        ensure(g.shape == (N, Np), f"{what}: shape {g.shape}")
        d = np.abs(g - sx)
        ctx.steps += N * Np
        ctx.obs.append(hash(g.tobytes()))
        ensure(not (~(d <= tol)).any(), lambda: f"{what}: entry {np.unravel_index(np.argmax(d), d.shape)} is off by {d.max()}")
        m = ssca.ssca(s, N, Np)
        ensure(m.shape == (Np + 1, 2 * N + 1), f"{what} mapped: shape {m.shape}")
        ref = map_ref(sx, N, Np)
        seen = np.zeros(m.shape, dtype=bool)
        for (r, c), v in ref.items():
            seen[r, c] = True
            ensure(any(abs(m[r, c] - x) <= tol for x in v), lambda: f"{what} mapped: cell [{r}, {c}] is {m[r, c]}, expected {v[0]}")
        ensure((m[~seen] == 0).all(), f"{what} mapped: a cell nothing maps to is not zero")

    def spectral_sizes(ctx):
        N = 21 + ctx.choose("N", q(110, 240))
        Np = 2 * (1 + ctx.choose("Np", q(15, 32)))
        s = rich(N + Np)
        check_ssca(ctx, s, N, Np, f"ssca(N={N}, Np={Np})")

    def spectral_big(ctx):
        N, Np = ctx.pick("size", big)
        kind = ctx.choose("signal", 4)
        extra = ctx.pick("extra", [0, 1, 50])
        s = [rich, lambda n: np.where(np.arange(n) * 7 % 5 < 2, 1.0, -1.0), lambda n: 1e-6 * np.cos(2 * np.pi * 0.25 * np.arange(n)), lambda n: 1e6 * (np.arange(n) % 11 - 4.0)][kind](N + Np + extra)
        check_ssca(ctx, s, N, Np, f"ssca(N={N}, Np={Np}) of signal {kind}")

    def spectral_history(ctx):
        sizes2 = [(5, 2), (9, 4), (8, 4), (9, 2), (12, 4), (12, 6)]
        for i in range(q(3, 4)):
            N, Np = ctx.pick("size", sizes2)
            check_ssca(ctx, rich(N + Np) * (i + 1), N, Np, f"ssca(N={N}, Np={Np}), call {i}")

    def cuts_wide(ctx):
        import ssca
        r, c = ctx.pick("shape", [(4, 5), (5, 4), (7, 7), (1, 40), (40, 1), (33, 17), (129, 257)])
        i, j = np.meshgrid(np.arange(r), np.arange(c), indexing="ij")
        base = np.exp(1j * (i * 1.3 + j * j * 0.7)) * (1 + (i * 7 + j * 3) % 5) * 0.1
        sc = ctx.pick("scale", [1.0, 1e-9, 1e6])
        pi = ctx.pick("peak row", sorted({0, r // 2, r - 1}))
        pj = ctx.pick("peak column", sorted({0, c // 2, c - 1}))
        a = base * sc
        a[pi, pj] = sc * ctx.pick("peak", [-30, 30j, -20 - 20j, 25])
        lay = ctx.choose("layout", 3)
        a = [a, np.asfortranarray(a), np.repeat(a, 2, axis=0)[::2]][lay]
        p = np.abs(a) ** 2
        keep = a.copy()
        ctx.steps += r * c
        close(ctx, f"max_cut of a {r}x{c} array with its peak at {pi},{pj}", ssca.max_cut(a), 10 * np.log10(p.max(axis=1)), 1e-9)
        close(ctx, f"dcs of a {r}x{c} array with its peak at {pi},{pj}", ssca.dcs(a), 10 * np.log10(p.sum(axis=0) / p[0]), 1e-9)
        ensure(np.array_equal(a, keep), "max_cut or dcs changed its argument")

    def db_arrays(ctx):
        import util
        n = ctx.pick("n", [0, 1, 2, 3, 10, 100, 1000])
        sh = ctx.choose("shape", 3)
        x = 10.0 ** ((np.arange(n) * 7 % 41) - 20.0) * (1 + np.arange(n) % 9)
        if sh == 1:
            x = x.reshape(1, -1)
        elif sh == 2:
            x = np.asfortranarray(np.stack([x, x * 3], axis=1))
        keep = x.copy()
        ctx.steps += n
        ensure(np.allclose(util.db(x), 10 * np.log10(x), atol=1e-9), f"db of an array of shape {x.shape}")
        ensure(np.allclose(util.undb(util.db(x)), x, rtol=1e-9), f"undb(db) of an array of shape {x.shape}")
        y = np.arange(n) * 0.37 - 50
        ensure(np.allclose(util.db(util.undb(y)), y, atol=1e-9) and np.allclose(util.undb(y), 10 ** (y / 10), rtol=1e-9), f"undb of {n} values")
        ensure(np.array_equal(x, keep), "db or undb changed its argument")
        for i in range(-30, 31):
            ensure(abs(util.undb(i) / 10 ** (i / 10) - 1) < 1e-10, f"undb({i}) is {util.undb(i)}")
            if i > 0:
                ensure(abs(util.db(i) - 10 * math.log10(i)) < 1e-9, f"db({i}) is {util.db(i)}")

    return [
        ("powers-types", "neighbours of 2^0..2^52 as int, float, np.int64 and np.float64", pow_types),
        ("chunk-wide", "groups of 1..1000, up to 10 groups and every remainder kind, items None and characters, and an unbounded source pulled group by group", chunks_wide),
        ("fftshift-wide", "14 lengths to 10001 (thorough every length 130..1499) of 4 kinds, undone by ifftshift, argument unchanged", shift_wide),
        ("secs-wide", "45 (thorough 200) years x 8 days x 7 hours x 7 minutes x 8 seconds with fractions", secs_wide),
        ("chirp-long", "chirpz and chirpCtr of 2000 to 65537 samples, 5 sweeps, 2 phases", chirps_long),
        ("energy-wide", "avg_energy of every length 300..519 (thorough 2099) and two longer, 3 signals; the complex one alike", energy_wide),
        ("ssca-sizes", "every window 21..130 (thorough 260) x every even number of channels to 30 (64), mapped and not", spectral_sizes),
        ("ssca-big", "11 (thorough 16) sizes up to Np=64, N=256 x 4 signals (1e-6 to 1e6) x 3 lengths beyond the window, mapped and not", spectral_big),
        ("ssca-history", "every sequence of 3 (thorough 4) calls over 6 sizes", spectral_history),
        ("cuts-wide", "max_cut and dcs of arrays up to 129x257 with the peak at corners, edges and centre, 3 scales, 3 memory layouts", cuts_wide),
        ("db-arrays", "arrays of 0..1000 values of 3 shapes and whole numbers -30..30", db_arrays),
        ("powers", "every integer 1..2^15 (thorough 2^19) and the neighbours of 2^0..2^129 (thorough 2^599)", pows),
        ("chunk", "0..40 items by 1..12 from 4 kinds of source with 4 fill values", chunks),
        ("fftshift", "every length 0..129 of integers, reals and complex numbers", shift),
        ("nrz", "all messages up to 8 bits and lengths to 99 in 6 patterns", nrz),
        ("db", "1..9 x 10^-100..100 and arrays", dbs),
        ("secs_to_str", "every second of 50 hours (thorough 500), and mixed days, hours, minutes, seconds beyond a year: reads back to the same number of whole seconds", secs),
        ("chirp", "chirpz and chirpCtr: 7 chirp rates x 8 lengths x 5 start x 5 stop frequencies x 4 phases", chirps),
        ("energy", "avg_energy and scale of every vector of up to 5 (thorough 6) samples over 5 values in 3 containers", energy),
        ("energy-long", "avg_energy of every length 1..299 and three longer", energy_long),
        ("ssca", "every (N, Np) of the list (even Np to 16, N to 20, thorough 40) x 3 signals, mapped and not, against the defining formula", spectral),
        ("ssca-form", "every impulse and every sum or difference of two impulses at 5 sizes: determines the quadratic form", impulses),
        ("cuts", "max_cut and dcs of every array up to 2x2, 1x3, 3x1 over 5 complex values", cuts),
    ], ["values are compared within 1e-9 (waveforms 1e-6)", "the Python ssca uses numpy's (symmetric) Hamming window and needs N+Np samples", "Np even"]


# ------------------------------------------------------------------ C38

def chaos(x0, n):
    v = [x0]
    while len(v) < n:
        v.append(1 - 2 * v[-1] ** 2)
    return v


def unrelated(what, a, b, own=False):
    """No correlation between two unit noises at any (cyclic) lag, forwards or backwards in time."""
    n = len(a)
    for name, y in (("", b), (" reversed", b[::-1])):
        c = np.abs(np.fft.ifft(np.fft.fft(a) * np.conj(np.fft.fft(y)))) / n**0.5
        if own:
            # every product counts twice at some lags
            c[:1] = 0 if not name else c[:1]
        ensure(c.max() < (10.6 if own else 7.5), lambda: f"{what}{name}: correlated ({c.max() * n**-0.5}) at a lag of {int(c.argmax())}")


def threads_for_processes():
    """Pools of processes replaced by pools of threads: a worker of ours may not fork."""
    import concurrent.futures
    import multiprocessing.pool
    multiprocessing.Pool = multiprocessing.pool.ThreadPool
    concurrent.futures.ProcessPoolExecutor = concurrent.futures.ThreadPoolExecutor


def c38(deep):
    q = lambda a, b: b if deep else a  # noqa: E731

    def error_rate(ctx):
        import ber
        import ber_theory
        f = [ber.ber, ber_theory.ber][ctx.choose("module", 2)]
        n, m = 1 + ctx.choose("n", q(6, 8)), 1 + ctx.choose("m", q(6, 8))
        a, b = ctx.bits("tx", n), ctx.bits("rx", m)
        k = min(n, m)
        w = sum(a[i] != b[i] for i in range(k)) / k
        g = f(a, b)
        ctx.steps += k
        ctx.obs.append(g)
        ensure(abs(g - w) < 1e-12, f"ber({bs(a)}, {bs(b)}) is {g} instead of {w}")

    def error_rate_long(ctx):
        import ber
        import ber_theory
        f = [ber.ber, ber_theory.ber][ctx.choose("module", 2)]
        n = ctx.pick("n", list(range(1, 130)) + [255, 256, 257, 1000, 4096, 65537])
        a = content(n)
        where = ctx.pick("errors", ["none", "all", "first", "last", "third"])
        bad = {"none": lambda i: False, "all": lambda i: True, "first": lambda i: i == 0, "last": lambda i: i == n - 1, "third": lambda i: i % 3 == 0}[where]
        b = [x != bad(i) for i, x in enumerate(a)]
        tail = ctx.pick("tail", [0, 1, 50])
        side = ctx.choose("longer side", 2)
        x, y = (a + content(tail), b) if side else (a, b + content(tail))
        y = [y, np.array(y, dtype=bool)][ctx.choose("container", 2)]
        w = sum(bad(i) for i in range(n)) / n
        ctx.steps += n
        g = f(x, y)
        ensure(abs(g - w) < 1e-12, f"ber of {n} bits with errors {where} is {g} instead of {w}")

    def theory(ctx):
        import ber_theory
        import pd_ber_snr_example as pd
        d = ctx.choose("dB", 401) * 0.25 - 60
        x = 10 ** (d / 10)
        e = math.erfc(math.sqrt(x))
        ctx.steps += 4
        ensure(abs(ber_theory.ber_bpsk(x) - 0.5 * e) < 1e-12, f"ber_bpsk({x}) is {ber_theory.ber_bpsk(x)}")
        ensure(abs(ber_theory.ber_qpsk(x) - (0.5 * e - 0.25 * e * e)) < 1e-12, f"ber_qpsk({x}) is {ber_theory.ber_qpsk(x)}")
        ensure(abs(pd.ber(x) - 0.5 * e) < 1e-12, f"ber({x}) is {pd.ber(x)}")
        ensure(abs(pd.ber(x + 3, offset=3) - 0.5 * e) < 1e-9, f"ber({x + 3}, offset=3) is {pd.ber(x + 3, offset=3)}")
        a = np.array([x, 1.0, 0.0, 4.0])
        ea = np.array([math.erfc(math.sqrt(v)) for v in a])
        ensure(np.allclose(ber_theory.ber_bpsk(a), 0.5 * ea, atol=1e-12) and np.allclose(ber_theory.ber_qpsk(a), 0.5 * ea - 0.25 * ea ** 2, atol=1e-12), f"theory of an array {a}")

    def logistic(ctx):
        import pd_ber_snr_example as pd
        x = ctx.choose("x", 161) * 0.5 - 40
        x0 = ctx.pick("x0", [0, -15, 3, 0.5])
        L = ctx.pick("L", [1, 2.5, -1])
        k = ctx.pick("k", [1, 0.1, -2])
        ctx.steps += 1
        w = L / (1 + math.exp(-k * (x - x0)))
        g = pd.logistic_curve(x, x0=x0, L=L, k=k)
        ensure(abs(g - w) < 1e-12, f"logistic_curve({x}, x0={x0}, L={L}, k={k}) is {g} instead of {w}")
        if (x0, L, k) == (0, 1, 1):
            ensure(abs(pd.logistic_curve(x) - w) < 1e-12, f"logistic_curve({x}) is {pd.logistic_curve(x)} instead of {w}")

    def loopback(ctx):
        """Zero noise gives zero errors, an inverted receiver nothing but errors."""
        import ber
        import ber_theory
        import psk
        f = [ber.get_ber, ber_theory.get_ber][ctx.choose("module", 2)]
        m = [b for b in content(ctx.pick("n", [1, 2, 10, 64, 200]))]
        sps, rs, fc = ctx.pick("cfg", [(4, 10, 10), (10, 900, 1800)])
        rx = lambda s: psk.rx_bpsk(s, sps * rs, rs, fc)  # noqa: E731
        tx = [float(v) for v in psk.tx_bpsk(m, sps * rs, rs, fc)]
        ctx.steps += len(m)
        ensure(f(m, tx, rx, 0.0) == 0.0, f"get_ber of {len(m)} bits without noise is {f(m, tx, rx, 0.0)}")
        ensure(f(m, tx, lambda s: [not b for b in rx(s)], 0.0) == 1.0, "get_ber with an inverted receiver is not 1")
        half = lambda s: [b != (i % 2 == 0) for i, b in enumerate(rx(s))]  # noqa: E731
        w = (len(m) + 1) // 2 / len(m)
        ensure(abs(f(m, tx, half, 0.0) - w) < 1e-12, f"get_ber with every second bit wrong is {f(m, tx, half, 0.0)}")

    def matrix(ctx, m, b, call):
        import fh_ofdm_dcsk as fo
        g = call(fo)
        ensure(len(g) == b and all(len(r) == b for r in g), f"tx_fh_dcsk of {bs(m)}: {len(g)} rows")
        rows = [[tri(m[r]) * v for v in chaos(0.001 + r / 10, b)] for r in range(b)]
        ctx.steps += b * b
        ctx.obs.append(hash(str(g)))
        for c in range(b):
            got, want = sorted(g[r][c] for r in range(b)), sorted(rows[r][c] for r in range(b))
            ensure(all(abs(x - y) < 1e-9 for x, y in zip(got, want)), f"tx_fh_dcsk of {bs(m)}: column {c} is {got} instead of a rearrangement of {want}")
        return g

    def hopping(ctx):
        b = ctx.pick("b", [8, 1, 2, 3, 4, 5, 6, 7, 9, 10])
        m = ctx.bits("bits", b) if b <= q(8, 10) else pattern(ctx.choose("pattern", PATTERNS), b)
        src = form(ctx, m)
        kw = {} if b == 8 else {"b": b}
        g = matrix(ctx, m, b, lambda fo: fo.tx_fh_dcsk(src, **kw))
        # the same hops for every message, and on every call
        h = matrix(ctx, m, b, lambda fo: fo.tx_fh_dcsk(iter(m), b))
        ensure(g == h, f"tx_fh_dcsk of {bs(m)}: two calls differ")
        inv = matrix(ctx, [not x for x in m], b, lambda fo: fo.tx_fh_dcsk([not x for x in m], b))
        ensure(all(abs(x + y) < 1e-12 for r, s in zip(g, inv) for x, y in zip(r, s)), f"tx_fh_dcsk of {bs(m)}: the inverted message hops elsewhere")
        longer = matrix(ctx, m, b, lambda fo: fo.tx_fh_dcsk(m + [True, False, True], b))
        ensure(longer == g, f"tx_fh_dcsk of {bs(m)}: bits beyond the block change it")

    def cheb(ctx):
        import fh_ofdm_dcsk as fo
        x0 = (ctx.choose("x0", 201) - 100) / 100
        g = fo.chebyshev(x0)
        x = x0
        for i in range(q(300, 3000)):
            v, w = next(g), 1 - 2 * x * x
            ctx.steps += 1
            ensure(abs(v - w) < 1e-9, f"chebyshev({x0}): item {i} is {v} instead of {w}")
            ensure(-1 - 1e-9 <= v <= 1 + 1e-9, f"chebyshev({x0}): item {i} is {v}")
            x = v

    def bandpass(ctx):
        import bpf
        fs = ctx.pick("fs", [1000, 10_000, 44100.0])
        lo, hi = ctx.pick("band", [(0.1, 0.2), (0.05, 0.3), (0.2, 0.21), (0.3, 0.45), (0.02, 0.03)])
        order = ctx.pick("order", [None, 1, 2, 3, 4, 5, 6, 8, 9, 10])
        if (order or 5) > 2 and hi - lo < 0.05:
            return
        kw = {} if order is None else {"order": order}
        N = order or 5
        n = 4096
        e = np.zeros(n)
        e[0] = 1
        h = np.asarray(bpf.butter_bandpass_filter(e, lo * fs, hi * fs, fs, **kw))
        ctx.steps += n
        ctx.obs.append(hash(h.tobytes()))
        ensure(h.shape == (n,), f"butter_bandpass_filter: shape {h.shape}")
        what = f"butter_bandpass_filter(fs={fs}, band {lo * fs}..{hi * fs}, order {order})"
        if hi - lo >= 0.05:
            t = lambda f: np.tan(np.pi * f)  # noqa: E731
            f = (np.arange(1, n // 2)) / n
            u = (t(f) ** 2 - t(lo) * t(hi)) / (t(f) * (t(hi) - t(lo)))
            want = 1 / np.sqrt(1 + np.abs(u) ** (2 * N))
            got = np.abs(np.fft.rfft(h))[1 : n // 2]
            d = np.abs(got - want)
            ensure(d.max() < 1e-4, f"{what}: gain at {f[d.argmax()] * fs} Hz is {got[d.argmax()]} instead of {want[d.argmax()]}")
        # linear, time-invariant, causal
        x = rich(500)
        k = ctx.pick("delay", [0, 1, 7, 100])
        y = np.asarray(bpf.butter_bandpass_filter(np.concatenate([np.zeros(k), x]), lo * fs, hi * fs, fs, **kw))
        w = np.concatenate([np.zeros(k), np.convolve(x, h)[:500]])
        d = np.abs(y - w)
        ensure(len(y) == len(w) and d.max() < (1e-6 if N < 8 else 1e-4), f"{what}: a signal delayed by {k} is off by {d.max()} from its convolution with the impulse response")

    def bandpass_long(ctx):
        import bpf
        from scipy.signal import fftconvolve
        lo, hi = ctx.pick("band", [(0.1, 0.2), (0.05, 0.3), (0.3, 0.45)])
        order = ctx.pick("order", [None, 1, 2])
        n = ctx.pick("length", [0, 1, 2, 1000, 4095, 4096, 4097, 8192, 16384, 16385, 20_000, 32768, 50_000, 65536, 65537, 100_003, 1 << 17, (1 << 18) + 1] + q([], [1 << 20, (1 << 22) + 3]))
        kind = ctx.choose("kind", 5)
        fs = 8000
        kw = {} if order is None else {"order": order}
        e = np.zeros(8192)
        e[0] = 1
        h = np.asarray(bpf.butter_bandpass_filter(e, lo * fs, hi * fs, fs, **kw))
        i = np.arange(n)
        if kind == 4:
            x = np.zeros(n)
            x[n // 2 : n // 2 + 1] = 1
            x[n - 1 :] = 1
        else:
            x = np.cos(0.7 * i + 1e-6 * i * i) + 0.5 * np.cos(1.1 * i) + ((i * i) % 17) / 17
            x *= [1, 1e-9, 1e9, 1][kind]
        if n == 0:
            return
        arg = x.tolist() if kind == 3 else x.copy()
        y = np.asarray(bpf.butter_bandpass_filter(arg, lo * fs, hi * fs, fs, **kw))
        w = fftconvolve(x, h)[:n]
        ctx.steps += n
        ensure(len(y) == n, f"butter_bandpass_filter: {len(y)} samples of {n}")
        d = np.abs(y - w)
        ensure(d.max() < 1e-6 * max(1e-300, np.abs(x).max()), f"butter_bandpass_filter(order {order}, band {lo}..{hi} fs): sample {d.argmax()} of {n} is {y[d.argmax()]} instead of {w[d.argmax()]}")
        if kind != 3:
            ensure((arg == x).all(), "butter_bandpass_filter changed its argument")

    def cheb_far(ctx):
        import fh_ofdm_dcsk as fo
        x = ctx.pick("x0", [0.001, 0.5, -0.3, 1.0, 0.901, 1e-9])
        g = fo.chebyshev(x)
        for i in range(q(1 << 18, 1 << 21)):
            v, w = next(g), 1 - 2 * x * x
            ensure(abs(v - w) < 1e-9 and -1 - 1e-9 <= v <= 1 + 1e-9, f"chebyshev: item {i} is {v} instead of {w}")
            x = v
        ctx.steps += q(1 << 18, 1 << 21)

    def error_rate_far(ctx):
        import ber as b1
        import ber_theory as b2
        m = ctx.pick("module", [b1, b2])
        n = ctx.pick("length", [1 << 14, 1 << 16, (1 << 16) + 1, 100_000, 1 << 18] + q([], [1 << 22]))
        what = ctx.choose("what", 6)
        x = [(i * i) % 7 < 3 for i in range(n)]
        y = list(x)
        where = [[], [0], [n - 1], [n // 2], range(0, n, 3), range(n)][what]
        for i in where:
            y[i] = not y[i]
        if ctx.choose("numpy", 2):
            x, y = np.array(x), np.array(y)
        got = m.ber(x, y)
        ctx.steps += n
        ensure(abs(got - len(where) / n) < 1e-12, f"ber of {n} bits with {len(where)} errors is {got}")

    def white(ctx, what, z):
        """Unit Gaussian white noise, each statistic within 7 standard errors."""
        n = len(z)
        ctx.steps += n
        ensure(abs(z.mean()) < 7 / n**0.5, lambda: f"{what}: mean {z.mean()}")
        ensure(abs((z**2).mean() - 1) < 7 * (2 / n) ** 0.5, lambda: f"{what}: power {(z ** 2).mean()} instead of 1")
        ensure(abs((z**3).mean()) < 7 * (15 / n) ** 0.5, lambda: f"{what}: third moment {(z ** 3).mean()}")
        ensure(abs((z**4).mean() - 3) < 7 * (96 / n) ** 0.5, lambda: f"{what}: fourth moment {(z ** 4).mean()} instead of 3")
        for lag in range(1, 33):
            c = (z[lag:] * z[:-lag]).mean()
            ensure(abs(c) < 7 / (n - lag) ** 0.5, lambda: f"{what}: samples {lag} apart are correlated ({c})")
        ensure(len(set(np.abs(z))) > n - 4, lambda: f"{what}: noise repeats")
        unrelated(what, z, z, own=True)

    def noise(ctx):
        import ber
        import ber_theory
        import willie
        which = ctx.choose("function", 4)
        n = ctx.pick("n", [0, 1, 2, 7, 1 << 14])
        sigma = ctx.pick("sigma", [1.0, 0.0, 0.3, 25.0, 1e6])
        k = ctx.pick("factor", [1.0, 0.0, -2.0, 0.25]) if which < 2 else 1.0
        i = np.arange(n)
        s = [np.cos(0.7 * i) * 3, (i * i % 17 - 8.0), np.zeros(n)][ctx.choose("signal", 3)]
        if which == 3:
            s = s + 1j * np.sin(1.1 * i)
        f = [lambda x: ber.noise_sig(x, sigma, k), lambda x: ber_theory.noise_sig(x, sigma, k), lambda x: willie.awgn(x, sigma), lambda x: willie.awgn_iq(x, sigma)][which]
        what = f"{['ber.noise_sig', 'ber_theory.noise_sig', 'willie.awgn', 'willie.awgn_iq'][which]}(sigma {sigma}, factor {k}) of {n} samples"
        src = [list(s), s.copy()][ctx.choose("container", 2)]
        g = np.array(list(f(src)))
        ensure(len(g) == n, lambda: f"{what}: {len(g)} samples")
        ensure(np.array_equal(np.array(src), s), f"{what}: the caller's signal was changed")
        ctx.steps += n
        if sigma == 0 or k == 0:
            ensure(not n or np.array_equal(g, s), f"{what}: the signal is changed without noise")
        elif n > 100:
            z = (g - s) / (sigma * k)
            if which == 3:
                white(ctx, what + ", real part", z.real)
                white(ctx, what + ", imaginary part", z.imag)
                unrelated(what + ", real and imaginary part", z.real, z.imag)
            else:
                white(ctx, what, z)
            h = np.array(list(f(src)))
            y = (h - s) / (sigma * k)
            unrelated(what + ", two calls", z.real, y.real)
            if which == 3:
                unrelated(what + ", two calls", z.real, y.imag)
                unrelated(what + ", two calls", z.imag, y.imag)

    def scaling(ctx):
        import willie
        n = ctx.choose("n", 40)
        a = ctx.pick("scalar", [1, 0, -1, 0.5, 1e9, 2 - 1j])
        x = [i * 0.25 - 3 for i in range(n)]
        g = willie.scale(x if ctx.choose("container", 2) == 0 else np.array(x), a)
        close(ctx, f"scale by {a}", g, np.array([a * v for v in x]), 1e-9)

    def rates(ctx):
        """calc_ber: each signal-to-noise ratio in turn, with the noise level the theory asks for."""
        threads_for_processes()
        import ber
        k = 1 + ctx.choose("ratios", 5)
        fs, rs = ctx.pick("rates", [(65536, 256), (44100, 900), (8000, 1000)])
        n = ctx.pick("bits", [200, 501])
        amp = ctx.pick("amplitude", [1.0, 0.5, 20.0])
        order = ctx.choose("order", 2)
        snrs = np.array([0.01, 0.1, 1.0, 7.0, 60.0][:k][:: -1 if order else 1])
        ber.SAMPLE_RATE, ber.SYMBOL_RATE = fs, rs
        data = content(n)
        sig = [amp * (1 if b else -1) for b in data for _ in range(fs // rs // 4 + 1)]
        eb = sum(v * v for v in sig) / n
        n0 = np.sqrt(fs * eb / (2 * snrs)) / rs

        def rx(noisy):
            z = np.asarray(noisy) - np.array(sig)
            v = math.sqrt((z * z).mean())
            near = [i for i, x in enumerate(n0) if abs(v / x - 1) < 7 / (2 * len(z)) ** 0.5]
            ensure(len(near) == 1, f"calc_ber: a reception with noise of {v}, the levels being {n0}")
            bad = near[0] * 17 + 3
            return [b != (i < bad) for i, b in enumerate(data)]

        t = ber.BitErrorTestResults("probe", data, sig, rx, snrs)
        r = ber.calc_ber(t)
        ensure(r is t, "calc_ber returns another result")
        close(ctx, f"calc_ber of {k} ratios", r.bers, [(i * 17 + 3) / n for i in range(k)], 1e-12)

    return [
        ("noise", "noise_sig of both modules, willie's awgn and awgn_iq: 5 lengths x 5 noise levels x 4 factors x 3 signals: signal plus white Gaussian noise of that level", noise),
        ("scale", "willie's scale: 40 lengths x 6 scalars", scaling),
        ("calc_ber", "calc_ber: 1..5 ratios in both orders x 3 rates x 2 lengths x 3 amplitudes: noise level and error rate of each", rates),
        ("butter-long", "butter_bandpass_filter of 18 lengths to 2^18+1 (thorough 2^22) x 5 kinds of signal x 3 bands x 3 orders: every sample the convolution with the impulse response", bandpass_long),
        ("chebyshev-far", "6 starting points x 2^18 (thorough 2^21) items", cheb_far),
        ("ber-far", "both ber functions of 2^14..2^18 (thorough 2^22) bits, 6 places of errors, lists and arrays", error_rate_far),
        ("ber", "both ber functions: every pair of bit strings of 1..6 (thorough 8) bits each, of equal and different lengths", error_rate),
        ("ber-long", "every length 1..129 and six longer, 5 places of errors, tails of 3 lengths on either side", error_rate_long),
        ("theory", "ber_bpsk, ber_qpsk and the example's ber on 401 signal-to-noise ratios from -60 to 40 dB, scalars and arrays", theory),
        ("logistic", "logistic_curve on 161 x 4 x 3 x 3 arguments", logistic),
        ("get_ber", "get_ber without noise: no errors, all errors and every second, 2 modules", loopback),
        ("hopping-matrix", "tx_fh_dcsk: every message of 1..8 (thorough 10) bits and patterns to 10: every column a rearrangement of the chaotic chips, the same one for every message and call", hopping),
        ("chebyshev", "201 starting points x 300 (thorough 3000) items against the recurrence and its bounds", cheb),
        ("butter", "butter_bandpass_filter: 3 rates x 5 bands x 10 orders to 10 x 4 delays: analytic gain, linearity, time invariance, causality", bandpass),
    ], ["the hop order is not pinned, only that it is a rearrangement that does not depend on the message", "narrow bands are checked for linearity only (the transfer-function form of scipy is inexact there)"]



# ------------------------------------------------------------------ C41

def lam():
    """kom_py/lambdas.py; its process pools replaced by thread pools (a worker of ours may not fork)."""
    import logging
    import warnings
    threads_for_processes()
    import lambdas
    logging.disable(logging.CRITICAL)
    warnings.filterwarnings("ignore")
    return lambdas


def held_out(ctx, what, df, h0, h1):
    """Judge one table of held-out trials. False if it holds trials of one kind only."""
    n = len(h0)
    x, y, p = (np.asarray(df[c], dtype=float) for c in ("x", "y", "proba"))
    ctx.steps += len(x)
    ctx.obs.append(hash((x.tobytes(), y.tobytes())))
    ensure(len(x) == n, lambda: f"{what}: {len(x)} held-out trials of {2 * n}")
    have = {}
    for v, k in [(float(v), 0.0) for v in h0] + [(float(v), 1.0) for v in h1]:
        have[v, k] = have.get((v, k), 0) + 1
    for v, k in zip(x, y):
        have[v, k] = have.get((v, k), 0) - 1
        ensure(have[v, k] >= 0, lambda: f"{what}: the row x={v} y={k} is no trial, or there once too often")
    ensure((np.diff(p) >= 0).all(), lambda: f"{what}: rows are not in order of probability: {p[:20]}")
    ensure(((p >= 0) & (p <= 1)).all(), lambda: f"{what}: probabilities {p[:20]}")
    s = np.diff(x[np.argsort(x, kind="stable")]), np.diff(p[np.argsort(x, kind="stable")])
    ensure((s[1] >= -1e-12).all() or (s[1] <= 1e-12).all(), lambda: f"{what}: the probability is not monotonic in the detector's value")
    if y.min() == y.max():
        return None
    pos, neg = np.sort(p[y == 1]), np.sort(p[y == 0])
    tpr = (len(pos) - np.searchsorted(pos, p)) / len(pos)
    fpr = (len(neg) - np.searchsorted(neg, p)) / len(neg)
    close(ctx, what + ", true positive rates", df["tpr"], tpr, 1e-9)
    close(ctx, what + ", false positive rates", df["fpr"], fpr, 1e-9)
    close(ctx, what + ", Youden's J", df["youden_j"], tpr - fpr, 1e-9)
    # pairs in the right order, ties counting half
    below, upto = np.searchsorted(neg, pos), np.searchsorted(neg, pos, side="right")
    auc = float((below + upto).sum()) / 2 / len(pos) / len(neg)
    return dict(rest=have, auc=auc, j=float(np.abs(tpr - fpr).max()), best=set(x[tpr - fpr >= (tpr - fpr).max() - 1e-12]))


def figures(ctx, what, L, df, w):
    auc, yj, bt = (getattr(L, f, None) for f in ("__auc", "__youden_j", "__best_threshold"))
    if auc:
        ensure(abs(auc(df) - w["auc"]) < 1e-9, lambda: f"{what}: AUC {auc(df)} instead of {w['auc']}")
    if yj:
        ensure(abs(yj(df) - w["j"]) < 1e-9, lambda: f"{what}: largest Youden's J {yj(df)} instead of {w['j']}")
    if bt:
        ensure(float(bt(df)) in w["best"], lambda: f"{what}: best threshold {bt(df)}, but the largest J is reached at {sorted(w['best'])[:5]}")


def trials(ctx, h0, h1, what=None, may_fail=False, fit=False):
    L = lam()
    f = getattr(L, "__log_regress", None)
    if f is None:
        return None
    what = what or f"noise {list(h0)} signal {list(h1)}"
    b0, b1 = list(h0), list(h1)
    try:
        df, lr = f(h0, h1, True)
    except ValueError as e:
        # a fit needs trials of both kinds in its half
        if may_fail and "class" in str(e):
            return None
        raise
    ensure(list(h0) == b0 and list(h1) == b1, lambda: f"{what}: the caller's values were changed")
    w = held_out(ctx, what, df, h0, h1)
    if w is None:
        return None
    c, i = float(lr.coef_[0][0]), float(lr.intercept_[0])
    z = c * np.asarray(df["x"]) + i
    close(ctx, what + ", probabilities", df["proba"], 1 / (1 + np.exp(np.clip(-z, -700, 700))), 1e-9)
    if fit:
        # the optimum of the regression over the other half: no gradient
        t = [(v, k) for (v, k), m in w["rest"].items() for _ in range(m)]
        xs, ys = np.array([v for v, _ in t]), np.array([k for _, k in t])
        r = 1 / (1 + np.exp(-(c * xs + i))) - ys
        g0, g1 = r.sum(), c + (r * xs).sum()
        ensure(abs(g0) < 2e-3 * len(t) and abs(g1) < 2e-3 * len(t) * (1 + np.abs(xs).max()),
               lambda: f"{what}: the regression ({c}, {i}) is not the one fitted to the other half (gradients {g0}, {g1})")
    figures(ctx, what, L, df, w)
    one = f(h0, h1)
    ensure(all((one[k] == df[k]).all() for k in ("x", "y", "proba", "tpr", "fpr", "youden_j")), lambda: f"{what}: the same trials give another table")
    return df, w


def c41(deep):
    q = lambda a, b: b if deep else a  # noqa: E731

    def small(ctx):
        n, top = ctx.pick("size", [(2, 4), (3, 4), (4, 3)] + q([], [(4, 4), (5, 3)]))
        h0 = [float(ctx.choose("noise", top)) for _ in range(n)]
        h1 = [float(ctx.choose("signal", top)) for _ in range(n)]
        trials(ctx, np.array(h0), np.array(h1), may_fail=True, fit=True)

    def labels(ctx):
        n = 2 + ctx.choose("n", q(5, 7))
        left = [n, n]
        h = ([], [])
        for r in range(2 * n):
            k = ctx.choose("next is", 2) if left[0] and left[1] else (0 if left[0] else 1)
            left[k] -= 1
            h[k].append(r)
        off, step = ctx.pick("scale", [(0.0, 0.25), (86.0, 0.5), (-3.0, 1e-3)])
        mix = ctx.choose("order", 3)
        a, b = ([off + step * v for v in l] for l in h)
        if mix:
            a, b = a[::-1], (b[1:] + b[:1] if mix == 2 else b)
        trials(ctx, np.array(a), np.array(b), may_fail=True, fit=off == 0.0)

    def values(n, k, sep, rough):
        a = np.array([math.sin(i * i * 0.7 + 1.1) + math.cos(i * 1.3) for i in range(n)])
        b = np.array([math.sin(i * i * 0.9 + 0.2) + math.cos(i * 1.9) + sep for i in range(n)])
        return (np.round(a * rough) / rough, np.round(b * rough) / rough) if rough else (a, b)

    def lengths(ctx):
        n = ctx.pick("n", list(range(7, q(130, 400))) + [149, 150, 151, 200, 255, 256, 257, 1000, 2000, 4096] + q([], [20_000, 65_537]))
        sep = ctx.pick("separation", [1.0, 0.0, 3.0, -1.5, 60.0])
        rough = ctx.pick("values", [0, 10, 1])
        a, b = values(n, 0, sep, rough)
        cont = ctx.choose("container", 2)
        if cont:
            a, b = [float(v) for v in a], [float(v) for v in b]
        trials(ctx, a, b, f"{n} trials each, separation {sep}, {'rounded to 1/' + str(rough) if rough else 'unrounded'}", fit=n < 300 and abs(sep) < 10)

    def extreme(ctx):
        n = ctx.pick("n", [20, 75, 150])
        kind = ctx.choose("kind", 7)
        a, b = values(n, 0, 0.5, 0)
        i = np.arange(n)
        if kind == 0:  # clearly told apart, and very spread: probabilities saturate
            a, b = 1e3 * a, 1e3 * b + 1e4
        elif kind == 1:
            a, b = 80 + 2 * a, 91 + 2.5 * b
        elif kind == 2:  # all alike
            a, b = np.full(n, 7.0), np.full(n, 7.0)
        elif kind == 3:  # one outlier
            b = np.where(i == n // 3, 1e5, b)
        elif kind == 4:
            a, b = 1e-6 * a, 1e-6 * b
        elif kind == 5:  # noise above the signal
            a, b = b + 4, a
        else:  # two values only
            a, b = (i % 4 == 0) * 1.0, (i % 4 != 0) * 1.0
        trials(ctx, a, b, f"{n} trials of kind {kind}")

    def tables(ctx, L, k, n=40):
        out = []
        for j in range(k):
            a, b = values(n + j, 0, 0.4 * j, 0)
            df = getattr(L, "__log_regress")(a, b)
            out.append((a, b, df, held_out(ctx, f"table {j}", df, a, b)))
        return out

    def lines(ax):
        return [(np.asarray(x.get_xdata(), dtype=float), np.asarray(x.get_ydata(), dtype=float)) for x in ax.lines]

    def line(ctx, what, ax, i, x, y):
        ls = lines(ax)
        ensure(len(ls) > i, lambda: f"{what}: {len(ls)} curves drawn")
        close(ctx, what + ", abscissa", ls[i][0], x, 1e-9)
        close(ctx, what + ", ordinate", ls[i][1], y, 1e-9)

    def plots(ctx):
        L = lam()
        import matplotlib.pyplot as plt
        if getattr(L, "__log_regress", None) is None:
            return
        plt.close("all")
        k = 1 + ctx.choose("snrs", 6)
        ts = tables(ctx, L, k)
        snrs = np.array([10 ** (0.3 * j - 1) for j in range(k)])
        dbs = 10 * np.log10(snrs)
        aucs, js = [t[3]["auc"] for t in ts], [t[3]["j"] for t in ts]
        dfs = [t[2] for t in ts]
        what = ctx.pick("plot", ["auc", "youden+auc", "multi", "modulations", "roc", "best", "best-given"])
        if what == "auc":
            L.plot_auc_vs_snr([t[0] for t in ts], [t[1] for t in ts], snrs)
            line(ctx, what, plt.gcf().axes[0], 0, dbs, aucs)
        elif what == "youden+auc":
            L.plot_youden_j_and_auc_vs_snr(dfs, snrs)
            line(ctx, what, plt.gcf().axes[0], 0, dbs, js)
            line(ctx, what, plt.gcf().axes[1], 0, dbs, aucs)
        elif what == "multi":
            ds = [L.DetectorTestResults("one", None, lr=dfs), L.DetectorTestResults("two", None, lr=dfs[::-1])]
            L.plot_multi_youden_j_and_auc_vs_snr(ds, snrs, "title")
            for i, s in enumerate([1, -1]):
                line(ctx, what, plt.gcf().axes[0], i, dbs, js[::s])
                line(ctx, what, plt.gcf().axes[1], i, dbs, aucs[::s])
        elif what == "modulations":
            ms = [L.ModulationTestResults("A", None), L.ModulationTestResults("B", None)]
            names = [d.name for d in ms[0].detectors]
            key = ctx.pick("key", names)
            for i, m in enumerate(ms):
                for d in m.detectors:
                    s = (1 if i == 0 else -1) * (1 if d.name == key else -1)
                    d.lr = dfs[::s]
            L.snrs = snrs  # the script's own list of noise levels
            L.plot_youden_j_with_multiple_modulations(ms, key)
            for i, s in enumerate([1, -1]):
                line(ctx, what, plt.gcf().axes[0], i, dbs, js[::s])
        elif what == "roc":
            L.plot_multi_roc_curve(dfs, "label")
            for i, d in enumerate(dfs):
                line(ctx, what, plt.gcf().axes[0], i, d["fpr"], d["tpr"])
        else:
            a, b, df, w = ts[-1]
            L.plot_best_lambda(a, b, df if what == "best-given" else None)
            marks = [x[0] for x, _ in lines(plt.gcf().axes[0]) if len(x) == 2 and x[0] == x[1]]
            ensure(len(marks) == 1 and marks[0] in w["best"], lambda: f"{what}: the threshold is marked at {marks} instead of {sorted(w['best'])[:4]}")
        plt.close("all")

    class Meter:
        n = 0

        def update(self, k=1):
            self.n += k

    def run(ctx):
        L = lam()
        import matplotlib.pyplot as plt
        f = getattr(L, "__run", None)
        if f is None:
            return
        k = 1 + ctx.choose("snrs", 3)
        sps = ctx.pick("sps", [64, 30])
        attempts = ctx.pick("attempts", [8, 10, 20])
        amp, snrs = ctx.pick("levels", [(2.0, (40.0, 8.0, 20.0)), (1e-3, (20.0, 1e3, 3.0)), (300.0, (1e3, 1e4, 2e3)), (1e-8, (1e-2, 1.0, 1e-3))])
        snrs = np.array(snrs)[:k]
        sent = []

        def tx(data):
            sent.append([bool(b) for b in data])
            return np.repeat([amp if b else -amp for b in data], sps)

        seen = [{}, {}]

        def detector(i):
            def go(s):
                v = float(np.mean(np.asarray(s) ** 2)) * (i + 1)
                seen[i][v] = np.array(s)
                return v
            return go

        m = L.ModulationTestResults("probe", tx)
        m.detectors = [L.DetectorTestResults(name=f"d{i}", detect_fn=detector(i)) for i in range(2)]
        meter = Meter()
        r = f(m, snrs, num_attempts=attempts, progress=meter)
        plt.close("all")
        ensure(r is m, "the results are not those of the modulation given")
        ensure(meter.n == k, f"progress went {meter.n} steps for {k} noise levels")
        streams, messages = [], []
        for i, d in enumerate(r.detectors):
            what = f"detector {i}"
            ensure(len(d.h0s) == k and len(d.h1s) == k and len(d.lr) == k, lambda: f"{what}: {len(d.h0s)}/{len(d.h1s)}/{len(d.lr)} results for {k} noise levels")
            for j, snr in enumerate(snrs):
                n0 = amp * amp / snr
                w = f"{what}, SNR {snr}"
                ensure(len(d.h0s[j]) == attempts and len(d.h1s[j]) == attempts, lambda: f"{w}: {len(d.h0s[j])}/{len(d.h1s[j])} values for {attempts} attempts")
                lens = set()
                for h, values in enumerate([d.h0s[j], d.h1s[j]]):
                    for v in values:
                        s = seen[i].get(v)
                        ensure(s is not None, lambda: f"{w}: {v} is no value of the detector")
                        lens.add(len(s))
                        bits = None
                        if h:
                            bits = s.reshape(-1, sps).sum(axis=1) > 0
                            ensure(list(bits) in sent, lambda: f"{w}: a signal trial is no transmission")
                            if i == 0:
                                messages.append(bits)
                            s = s - np.repeat(np.where(bits, amp, -amp), sps)
                        z = s / n0
                        ctx.steps += len(z)
                        ensure(abs(z.mean()) < 7 / len(z) ** 0.5, lambda: f"{w}: noise of mean {z.mean()} sigma")
                        ensure(abs((z * z).mean() - 1) < 7 * (2 / len(z)) ** 0.5, lambda: f"{w}: noise power {(z * z).mean()} instead of 1, trial with{'' if h else 'out'} signal")
                        if i == 0:
                            streams.append(z)
                ensure(len(lens) == 1 and min(lens) >= 4096 + 64, lambda: f"{w}: trials of {lens} samples")
                t = getattr(L, "__log_regress")(d.h0s[j], d.h1s[j])
                ensure(all((t[c].to_numpy() == d.lr[j][c].to_numpy()).all() for c in ("x", "y", "proba", "tpr", "fpr")), lambda: f"{w}: the table is not that of these trials")
        for a in range(len(streams)):
            for b in range(a):
                c = float(np.mean(streams[a] * streams[b]))
                ensure(abs(c) < 7 / len(streams[a]) ** 0.5, lambda: f"the noise of two trials is correlated ({c})")
        for a in range(len(messages)):
            for b in range(a):
                n = len(messages[a])
                same = int((messages[a] == messages[b]).sum())
                ensure(abs(same - n / 2) < 3.5 * n**0.5, lambda: f"two trials' messages of {n} bits agree in {same}")

    def transmitters(ctx):
        L = lam()
        import komunikilo as k
        fs, rs, fc = 2**16, 2**8, 2000
        want = {
            "BFSK": lambda d: k.tx_bfsk(d, fs, rs, 1600.0, 2000.0),
            "BPSK": lambda d: k.tx_bpsk(d, fs, rs, fc),
            "CDMA": lambda d: k.tx_cdma_bpsk(d, fs, rs, fc),
            "OFDM": lambda d: k.tx_ofdm(d, 8, 6, fs, rs, fc),
            "FH-CSS": lambda d: k.tx_fh_css(d, fs, rs, 2000.0, 10000.0, 8),
            "CSK": lambda d: k.tx_csk(d, fs, rs),
            "DCSK": lambda d: k.tx_dcsk(d, fs, rs),
            "FH-OFDM-DCSK": lambda d: k.tx_fh_ofdm_dcsk(d, fs, rs, fc),
        }
        name = ctx.pick("modulation", list(want))
        m = message(ctx, 5, list(range(6, 60)) + [120, 500])
        found = [h for h in L.harness if h.name == name]
        ensure(len(found) == 1, lambda: f"{len(found)} modulations called {name}")
        close(ctx, f"{name} of {bs(m)}", found[0].tx_func(m), want[name](m), 1e-9)

    def detectors(ctx):
        L = lam()
        import komunikilo as k
        d = L._detectors()
        want = {"MaxCut": k.max_cut_detector, "Radiometer": k.energy_detector}
        name = ctx.pick("detector", list(want))
        sel = [x for x in d if x.name == name]
        ensure(len(sel) == 1, lambda: f"{len(sel)} detectors called {name}")
        n = 4096 + 64 + 100 * ctx.choose("n", 3)
        s = [math.sin(0.3 * i) + math.cos(0.01 * i * i) for i in range(n)]
        a, b = sel[0].detect_fn(s), want[name](s)
        ctx.steps += 1
        ensure(abs(a - b) < 1e-9, lambda: f"{name}: {a} instead of {b}")
        # every modulation has detectors and results of its own
        x, y = L.ModulationTestResults("x", None), L.ModulationTestResults("y", None)
        x.detectors[0].h0s.append([1.0])
        ensure(y.detectors[0].h0s == [] and x.detectors[0].h1s == [] and L._detectors()[0].h0s == [], "modulations share their results")

    return [
        ("small", "2 and 3 noise and signal values each from 4 levels and 4 from 3 (thorough 4 from 4 and 5 from 3): every combination, ties included; the fit's gradient over the other half", small),
        ("labels", "every interleaving of 2..6 (thorough 8) noise and as many signal values x 3 scales x 3 orders", labels),
        ("lengths", "every number of trials 7..129 (thorough 399) and ten larger to 4096 (65537) x 5 separations x 3 roundings (ties) x lists and arrays", lengths),
        ("extreme", "3 numbers of trials x 7 kinds: saturated, all alike, outlier, tiny, reversed, two-valued", extreme),
        ("plots", "7 plots x 1..6 noise levels: every curve's data", plots),
        ("run", "1..3 noise levels x 2 symbol lengths x 3 numbers of attempts x signals of 4 strengths, 2 detectors: every trial's signal, noise power and independence, the messages, the tables", run),
        ("transmitters", "8 modulations: every message up to 5 bits, lengths to 59, 120 and 500 in 6 patterns", transmitters),
        ("detectors", "the two detectors on 3 lengths; results not shared", detectors),
    ], ["trials whose fitted or held-out half holds one kind only have no defined figures", "which trials are held out is not pinned", "equal numbers of noise and signal trials",
        "process pools are replaced by thread pools"]


PROPS = {"C34": c34, "C35": c35, "C38": c38, "C41": c41}


def write_replay(pid, tier, scenario, trace, msg):
    d = os.path.join(HERE, "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, pid + ".replay")
    with open(path, "w") as f:
        f.write(f"property {pid}\ntier {tier}\nscenario {scenario}\nmessage {msg!r}\n")
        for a, n, c in trace:
            f.write(f"choice {c} {n} {a}\n")
    return path


def check(pid):
    tier = "thorough" if os.environ.get("VERIF_TIER") == "thorough" else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    signal.signal(signal.SIGALRM, _alarm)
    budget = float(os.environ.get("KMC_BUDGET_S") or (6 * 3600 if tier == "thorough" else 780))
    scns, assumptions = PROPS[pid](tier == "thorough")
    tot = dict(executions=0, states=0, steps=0, distinct=0, capped=False)
    per, samples, viol = [], [], None
    for name, bound, fn in scns:
        t = time.time()
        st = explore(fn, T0 + budget)
        if st["error"]:
            print(f"{pid} {name}: harness error: {st['error']}")
            return 2
        if os.environ.get("KMC_VERBOSE"):
            print(f"  {pid} {name}: {st['executions']} executions, {st['steps']} steps, {time.time() - t:.2f}s")
        per.append(dict(name=name, bound=bound, executions=st["executions"], states=st["states"], steps_compared=st["steps"],
                        distinct_outcomes=len(st["distinct"]), complete=not st["capped"] and not st["violation"], wall_s=round(time.time() - t, 3)))
        for k in ("executions", "states", "steps"):
            tot[k] += st[k]
        tot["distinct"] += len(st["distinct"])
        tot["capped"] |= st["capped"]
        samples += [f"{name}: [{s}]" for s in st["samples"]]
        if st["violation"]:
            viol = (name, *st["violation"])
            break
    wall = time.time() - T0
    ev = dict(property=pid, tier=tier, seed=seed, level="model_checking", coverage=dict(
        states=tot["states"], transitions=tot["steps"], traces_validated_against_impl=tot["executions"], distinct_outcomes=tot["distinct"],
        exhaustive=not tot["capped"] and viol is None, states_meaning="nodes of the explored choice trees",
        transitions_meaning="items produced by the real code and compared with the reference model",
        conformance="every explored execution runs the code in /repo/kom_py; the reference model is compared with it item by item, so each one is a validated trace",
        scenarios=per, samples=samples[:12]), assumptions=assumptions, wall_s=round(wall, 3), violations=1 if viol else 0)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f)
    if viol:
        name, msg, trace = viol
        p = write_replay(pid, tier, name, trace, msg)
        print(f"{pid} {name}: {msg}")
        print("  choices: " + " ".join(f"{a}={c}/{n}" for a, n, c in trace))
        print(f"VIOLATION property={pid} replay={p}")
        return 1
    print(f"{pid}: held on {tot['executions']} executions, {tot['states']} states, {tot['steps']} compared steps, {tot['distinct']} distinct outcomes in {wall:.1f} s"
          + (" (time cap reached: not exhaustive)" if tot["capped"] else ""))
    return 0


def replay(path):
    pid = sc = None
    tier, pts = "quick", []
    for line in open(path):
        k, _, v = line.rstrip("\n").partition(" ")
        if k == "property":
            pid = v
        elif k == "tier":
            tier = v
        elif k == "scenario":
            sc = v
        elif k == "choice":
            c, n, a = v.split(" ", 2)
            pts.append((a, int(n), int(c)))
    signal.signal(signal.SIGALRM, _alarm)
    scns, _ = PROPS[pid](tier == "thorough")
    fn = next(f for n, _, f in scns if n == sc)
    ctx, err, div = run_once(fn, pts)
    if div:
        print("replay diverged: " + div)
        return 2
    if err:
        print("replay: " + err)
        print(f"VIOLATION property={pid} replay={path}")
        return 1
    print("replay: property held")
    return 0


if __name__ == "__main__":
    if len(sys.argv) == 3 and sys.argv[1] == "check" and sys.argv[2] in PROPS:
        sys.exit(check(sys.argv[2]))
    if len(sys.argv) == 3 and sys.argv[1] == "replay":
        sys.exit(replay(sys.argv[2]))
    print("usage: kpy.py check C34|C35|C38|C41 | replay FILE")
    sys.exit(2)
