"""The clock: the time read by the code under test may be chosen, however it is read.
Imported before the code under test, which may keep references to functions"""
import datetime
import time

fake = None        # function returning seconds, or None for the real clock
monotonic = None   # the same, for the monotonic clocks
_real = {n: getattr(time, n) for n in ('time', 'time_ns', 'monotonic', 'monotonic_ns', 'perf_counter', 'gmtime', 'localtime')}
_datetime = datetime.datetime


def _seconds(name):
    slow = name in ('monotonic', 'perf_counter')
    real = _real[name]

    def read():
        f = monotonic if slow else fake
        return real() if f is None else f()
    return read


def _ns(name):
    real = _real[f"{name}_ns"]

    def read():
        f = monotonic if name == 'monotonic' else fake
        return real() if f is None else round(f() * 10**9)
    return read


def _parts(name):
    real = _real[name]

    def read(seconds=None):
        return real(fake() if seconds is None and fake is not None else seconds)
    return read


class _Meta(type(_datetime)):
    def __instancecheck__(cls, instance):
        return isinstance(instance, _datetime)

    def __subclasscheck__(cls, other):
        return issubclass(other, _datetime)


class _Datetime(_datetime, metaclass=_Meta):
    @classmethod
    def now(cls, tz=None):
        return _datetime.now(tz) if fake is None else _datetime.fromtimestamp(fake(), tz)

    @classmethod
    def utcnow(cls):
        return cls.now(datetime.timezone.utc).replace(tzinfo=None)

    @classmethod
    def today(cls):
        return cls.now()


_Datetime.__name__ = _Datetime.__qualname__ = 'datetime'
for _n in ('time', 'monotonic', 'perf_counter'):
    setattr(time, _n, _seconds(_n))
for _n in ('time', 'monotonic'):
    setattr(time, f"{_n}_ns", _ns(_n))
for _n in ('gmtime', 'localtime'):
    setattr(time, _n, _parts(_n))
datetime.datetime = _Datetime
