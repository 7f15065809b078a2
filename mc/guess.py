"""Guessers over hash lists of their own"""
import contextlib
import io
import itertools
import os
import signal
import sys

from xxhash import xxh64_intdigest

from . import clock
from cdtb import hashes as hmod

KINDS = {'lcu': (hmod.LcuHashGuesser, hmod.hashfile_lcu), 'game': (hmod.GameHashGuesser, hmod.hashfile_game)}


def h64(text):
    return xxh64_intdigest(text.encode('utf-8'))


def set_list(kind, texts, path=None):
    """Give its content to the hash list of a kind of guesser"""
    hashfile = KINDS[kind][1]
    if path is not None:
        hashfile.filename = path
        with open(path, 'w', encoding='utf-8', newline='') as f:
            f.write(''.join(f"{h64(t):016x} {t}\n" for t in sorted(texts)))
        hashfile.load(force=True)
    else:
        hashfile.hashes = {h64(t): t for t in texts}


def make(kind, known, asked):
    """A guesser knowing the given texts, asked for hashes"""
    set_list(kind, known)
    return KINDS[kind][0]({a if isinstance(a, int) else h64(a) for a in asked})


class Run:
    """Runs steps, and keeps what was known before"""

    def __init__(self, kind, known, asked):
        self.asked = {a if isinstance(a, int) else h64(a) for a in asked}
        self.g = make(kind, known, self.asked)
        self.base = {h64(t): t for t in known}
        self.out = ''

    def step(self, f):
        out = io.StringIO()
        with contextlib.redirect_stdout(out):
            ret = f(self.g)
        self.last_out = out.getvalue()
        self.out += self.last_out
        return ret

    def found(self):
        return {t for h, t in self.g.known.items() if h not in self.base}

    def check_safe(self, ctx, before=None):
        """What every guessing step has to keep true"""
        g = self.g
        before = self.base if before is None else before
        for h, t in before.items():
            ctx.check(g.known.get(h) == t, lambda: f"known hash {h:016x} {t!r} becomes {g.known.get(h)!r}")
        for h, t in g.known.items():
            if h not in self.base:
                ctx.equal(h64(t), h, f"hash of the added text {t!r}")
                ctx.check(h in self.asked, f"{t!r} is added, but was not asked for")
        ctx.equal(set(g.unknown), self.asked - set(g.known), 'unknown hashes left')


class Terminal(io.StringIO):
    def fileno(self):
        return 2

    def isatty(self):
        return True


@contextlib.contextmanager
def terminal_sigint(every):
    """Standard error is a terminal, and Ctrl-C is typed (slowly) at each candidate `every` counts"""
    ticks = itertools.count(1000)
    saved = os.isatty, sys.stderr
    os.isatty = lambda fd: True
    sys.stderr = Terminal()
    clock.fake = clock.monotonic = lambda: float(next(ticks))
    prev = signal.getsignal(signal.SIGINT)
    try:
        yield lambda: signal.raise_signal(signal.SIGINT)
    finally:
        os.isatty, sys.stderr = saved
        clock.fake = clock.monotonic = None
        signal.signal(signal.SIGINT, prev)
