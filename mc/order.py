"""Directory listings in a chosen order: the order is up to the file system, so results may not depend on it.
Cases of a unit alternate between both orders (Thue-Morse sequence, not to follow the loops of the cases)."""
import os

descending = False
_listdir, _scandir = os.listdir, os.scandir


def choose(n):
    global descending
    descending = n.bit_count() & 1 == 0


def listdir(path='.'):
    return sorted(_listdir(path), reverse=descending)


class scandir:
    def __init__(self, path='.'):
        with _scandir(path) as it:
            self._it = iter(sorted(it, key=lambda e: e.name, reverse=descending))

    def __iter__(self):
        return self

    def __next__(self):
        return next(self._it)

    def close(self):
        self._it = iter(())

    def __enter__(self):
        return self

    def __exit__(self, *args):
        self.close()


def install():
    os.listdir = listdir
    os.scandir = scandir
