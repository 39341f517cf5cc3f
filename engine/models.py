"""Models of the standard library modules used by (or near) the code."""
import datetime as _dt
import math as _math
import mimetypes as _mt
import z3
from . import core, rt, strs
from .core import SymInt, SymBool, SymRat, Unsupported, i_cmp, as_z3, rng
from .vals import PStr, PUni, PDict, PSet, PArray, PBytes, S, U, is_str, in_ranges
from .rt import truth, land, lor, lnot, add, sub, mul, floordiv, mod, _narrow

decode = strs.decode

LOCAL_OFFSET = 19800       # replays run with TZ=Asia/Kolkata


def C():
    return core.CTX


class Mod(object):
    """A module object."""

    def __init__(self, name, attrs=None, ispkg=False):
        self.__dict__['_name'] = name
        self.__dict__['_ispkg'] = ispkg
        self.__dict__.update(attrs or {})

    def __getattr__(self, n):
        if n.startswith('__') and n.endswith('__'):
            raise AttributeError(n)
        if self.__dict__.get('_open'):
            raise AttributeError(n)
        if core.CTX is None:
            return rt.Missing('%s.%s' % (self._name, n))
        raise Unsupported('%s.%s' % (self._name, n))


# --------------------------------------------------------------------------
# dates


def num_int(x):
    """Integer value of a timedelta argument."""
    t = type(x)
    if t in rt.INTS:
        return core.toint(x)
    if t is float:
        if x == int(x):
            return int(x)
        return x
    if t is SymRat:
        if x.den == 1:
            return x.num
        raise Unsupported('fractional timedelta')
    raise TypeError('unsupported type for timedelta component: %s'
                    % rt.tname(x))


class PTimedelta(object):
    def __init__(self, days=0, seconds=0, microseconds=0, milliseconds=0,
                 minutes=0, hours=0, weeks=0):
        vals = [num_int(v) for v in (days, seconds, microseconds,
                                     milliseconds, minutes, hours, weeks)]
        if any(type(v) is float for v in vals):
            if any(type(v) is SymInt for v in vals):
                raise Unsupported('fractional timedelta')
            d, s, u, m, mi, h, w = vals
            t = _dt.timedelta(d, s, u, m, mi, h, w)
            self.s = t.days * 86400 + t.seconds
            self.us = t.microseconds
            return
        d, s, u, m, mi, h, w = vals
        tot = s
        for v, k in ((d, 86400), (mi, 60), (h, 3600), (w, 604800)):
            if type(v) is not int or v:
                tot = add(tot, mul(v, k))
        us = u
        if type(m) is not int or m:
            us = add(us, mul(m, 1000))
        self._norm(tot, us)

    def _norm(self, tot, us):
        lo, hi = rng(us)
        if lo < 0 or hi > 999999:
            tot = add(tot, floordiv(us, 1000000))
            us = mod(us, 1000000)
        self.s = tot
        self.us = us
        lo, hi = rng(tot)
        L = 999999999 * 86400
        if lo < -L or hi > L + 86399:
            if not truth(land([i_cmp('>=', tot, -L),
                               i_cmp('<=', tot, L + 86399)])):
                raise OverflowError('days out of range')

    @classmethod
    def of(cls, s, us=0):
        o = cls.__new__(PTimedelta)
        o._norm(s, us)
        return o

    @property
    def days(self):
        return floordiv(self.s, 86400)

    @property
    def seconds(self):
        return mod(self.s, 86400)

    @property
    def microseconds(self):
        return self.us

    def total_seconds(self):
        if type(self.us) is int and self.us == 0:
            return rt.float_(self.s)
        return SymRat(add(mul(self.s, 1000000), self.us), 1000000) \
            if type(self.s) is SymInt or type(self.us) is SymInt \
            else self.s + self.us / 1e6

    def __add__(self, o):
        if isinstance(o, PTimedelta):
            return PTimedelta.of(add(self.s, o.s), add(self.us, o.us))
        return NotImplemented

    __radd__ = __add__

    def __sub__(self, o):
        if isinstance(o, PTimedelta):
            return PTimedelta.of(sub(self.s, o.s), sub(self.us, o.us))
        return NotImplemented

    def __neg__(self):
        return PTimedelta.of(rt.neg(self.s), rt.neg(self.us))

    def __abs__(self):
        if truth(i_cmp('<', self.s, 0)):
            return -self
        return self

    def __mul__(self, k):
        if type(k) not in rt.INTS:
            return NotImplemented
        return PTimedelta.of(mul(self.s, k), mul(self.us, k))

    __rmul__ = __mul__

    def tot(self):
        if type(self.us) is int and self.us == 0:
            return mul(self.s, 1000000)
        return add(mul(self.s, 1000000), self.us)

    def __floordiv__(self, k):
        if isinstance(k, PTimedelta):
            return floordiv(self.tot(), k.tot())
        t = floordiv(self.tot(), k)
        return PTimedelta.of(floordiv(t, 1000000), mod(t, 1000000))

    __div__ = __floordiv__

    def _cmp(self, o, op):
        if not isinstance(o, PTimedelta):
            if op in ('==', '!='):
                return op == '!='
            raise TypeError("can't compare datetime.timedelta")
        if op in ('==', '!='):
            r = land([i_cmp('==', self.s, o.s), i_cmp('==', self.us, o.us)])
            return lnot(r) if op == '!=' else r
        st = op[0]
        return lor([i_cmp(st, self.s, o.s),
                    land([i_cmp('==', self.s, o.s),
                          i_cmp(op, self.us, o.us)])])

    def __eq__(self, o):
        return self._cmp(o, '==')

    def __ne__(self, o):
        return self._cmp(o, '!=')

    def __lt__(self, o):
        return self._cmp(o, '<')

    def __le__(self, o):
        return self._cmp(o, '<=')

    def __gt__(self, o):
        return self._cmp(o, '>')

    def __ge__(self, o):
        return self._cmp(o, '>=')

    __hash__ = None

    def __canon__(self):
        if type(self.s) is SymInt or type(self.us) is SymInt:
            return None
        return ('timedelta', self.s, self.us)

    def __nonzero__(self):
        return lor([i_cmp('!=', self.s, 0), i_cmp('!=', self.us, 0)])

    def __bool__(self):
        raise Unsupported('native truth of a timedelta')

    def __canonc__(self, ctx, model):
        return ['td', ctx.ev(model, self.s), ctx.ev(model, self.us)]

    def __repr__(self):
        return '<timedelta>'

    def __str__(self):
        def real():
            s, us = core.CTX.concretize_int(self.s), self.us
            us = core.CTX.concretize_int(us)
            return [ord(ch) for ch in str(_dt.timedelta(0, s, us))]
        return PStr.lazy(real)


DBM = [0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334]
DIM = [31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31]


def isleap(y):
    return land([i_cmp('==', rt.and__(y, 3), 0),
                 lor([i_cmp('!=', mod(y, 100), 0),
                      i_cmp('==', mod(y, 400), 0)])])


def table(key, tab, first):
    if type(key) is int:
        return tab[key - first]
    lo, hi = rng(key)
    return core.i_table(key, [(i, tab[i - first])
                              for i in range(max(lo, first),
                                             min(hi, first + len(tab) - 1)
                                             + 1)])


def b2i(b):
    return core.toint(b)


def days_before_year(y):
    p = sub(y, 1)
    if type(y) is SymInt and y.hi - y.lo < 130:
        # piecewise table over the possible years
        def f(v):
            q = v - 1
            return q * 365 + q // 4 - q // 100 + q // 400
        return core.i_table(y, [(v, f(v)) for v in range(y.lo, y.hi + 1)])
    return add(sub(add(mul(p, 365), floordiv(p, 4)), floordiv(p, 100)),
               floordiv(p, 400))


def ordinal(y, m, d):
    r = add(days_before_year(y), add(table(m, DBM, 1), d))
    feb = land([i_cmp('>', m, 2), isleap(y)])
    return add(r, b2i(feb))


def month_len(y, m):
    return add(table(m, DIM, 1), b2i(land([i_cmp('==', m, 2), isleap(y)])))


SPLIT = {}      # identities of the fields of a time -> the time
EPOCH = _dt.date(1970, 1, 1).toordinal()
MAXTOT = (_dt.date(9999, 12, 31).toordinal() + 1) * 86400


class PDate(object):
    def __init__(self, *a, **k):
        raise Unsupported('datetime.date')


class PDateTime(PDate):
    def __init__(self, year, month, day, hour=0, minute=0, second=0,
                 microsecond=0, tzinfo=None):
        vals = []
        for v in (year, month, day, hour, minute, second, microsecond):
            if type(v) not in rt.INTS:
                raise TypeError('an integer is required')
            vals.append(core.toint(v))
        y, m, d, h, mi, s, us = vals
        known = SPLIT.get(tuple([id(x) for x in vals[:6]]))
        if known is not None and rng(us)[0] >= 0 and rng(us)[1] <= 999999:
            # the fields of a time taken apart
            self._tot = known[0]
            self._f = tuple(vals[:6])
            self.microsecond = us
            self.tzinfo = tzinfo
            return
        ok = land([i_cmp('>=', y, 1), i_cmp('<=', y, 9999),
                   i_cmp('>=', m, 1), i_cmp('<=', m, 12),
                   i_cmp('>=', h, 0), i_cmp('<=', h, 23),
                   i_cmp('>=', mi, 0), i_cmp('<=', mi, 59),
                   i_cmp('>=', s, 0), i_cmp('<=', s, 59),
                   i_cmp('>=', us, 0), i_cmp('<=', us, 999999)])
        if not truth(ok):
            raise ValueError('field out of range')
        y, m = _narrow(y, 1, 9999), _narrow(m, 1, 12)
        ok = land([i_cmp('>=', d, 1), i_cmp('<=', d, month_len(y, m))])
        if not truth(ok):
            raise ValueError('day is out of range for month')
        self._f = (y, m, _narrow(d, 1, 31), _narrow(h, 0, 23),
                   _narrow(mi, 0, 59), _narrow(s, 0, 59))
        self._tot = None
        self.microsecond = us
        self.tzinfo = tzinfo

    @classmethod
    def of(cls, tot, us, tz):
        o = cls.__new__(PDateTime)
        lo, hi = rng(tot)
        if lo < 86400 or hi >= MAXTOT:
            if not truth(land([i_cmp('>=', tot, 86400),
                               i_cmp('<', tot, MAXTOT)])):
                raise OverflowError('date value out of range')
            tot = _narrow(tot, 86400, MAXTOT - 1)
        o._tot = tot
        o._f = None
        o.microsecond = us
        o.tzinfo = tz
        return o

    @property
    def tot(self):
        if self._tot is None:
            y, m, d, h, mi, s = self._f
            self._tot = add(add(mul(ordinal(y, m, d), 86400),
                                mul(h, 3600)), add(mul(mi, 60), s))
        return self._tot

    @property
    def f(self):
        if self._f is None:
            t = self._tot
            days = floordiv(t, 86400)
            r = mod(t, 86400)
            h = floordiv(r, 3600)
            mi = floordiv(mod(r, 3600), 60)
            s = mod(r, 60)
            y, m, d = civil(days)
            self._f = (y, m, d, h, mi, s)
            if type(t) is SymInt:
                if len(SPLIT) > 500:
                    SPLIT.clear()
                SPLIT[tuple([id(x) for x in self._f])] = (t, self._f)
        return self._f

    year = property(lambda s: s.f[0])
    month = property(lambda s: s.f[1])
    day = property(lambda s: s.f[2])
    hour = property(lambda s: s.f[3])
    minute = property(lambda s: s.f[4])
    second = property(lambda s: s.f[5])

    def utcoffset(self):
        if self.tzinfo is None:
            return None
        return self.tzinfo.utcoffset(self)

    def dst(self):
        if self.tzinfo is None:
            return None
        return self.tzinfo.dst(self)

    def tzname(self):
        if self.tzinfo is None:
            return None
        return self.tzinfo.tzname(self)

    def _base(self, o):
        """Seconds of self and o on a common scale."""
        a, b = self.utcoffset(), o.utcoffset()
        if (a is None) != (b is None):
            raise TypeError("can't compare offset-naive and offset-aware "
                            "datetimes")
        x, y = self.tot, o.tot
        if a is not None and self.tzinfo is not o.tzinfo:
            x, y = sub(x, a.s), sub(y, b.s)
        return x, y

    def __sub__(self, o):
        if isinstance(o, PDateTime):
            x, y = self._base(o)
            return PTimedelta.of(sub(x, y), sub(self.microsecond,
                                                o.microsecond))
        if isinstance(o, PTimedelta):
            return self + (-o)
        return NotImplemented

    def __add__(self, o):
        if not isinstance(o, PTimedelta):
            return NotImplemented
        tot = add(self.tot, o.s)
        us = add(self.microsecond, o.us)
        lo, hi = rng(us)
        if lo < 0 or hi > 999999:
            tot = add(tot, floordiv(us, 1000000))
            us = mod(us, 1000000)
        return PDateTime.of(tot, us, self.tzinfo)

    __radd__ = __add__

    def _cmp(self, o, op):
        if not isinstance(o, PDateTime):
            if op in ('==', '!='):
                return op == '!='
            raise TypeError("can't compare datetime.datetime")
        if op == '!=':
            return lnot(self._cmp(o, '=='))
        x, y = self._base(o)
        if op == '==':
            return land([i_cmp('==', x, y),
                         i_cmp('==', self.microsecond, o.microsecond)])
        return lor([i_cmp(op[0], x, y),
                    land([i_cmp('==', x, y),
                          i_cmp(op, self.microsecond, o.microsecond)])])

    def __eq__(self, o):
        return self._cmp(o, '==')

    def __ne__(self, o):
        return self._cmp(o, '!=')

    def __lt__(self, o):
        return self._cmp(o, '<')

    def __le__(self, o):
        return self._cmp(o, '<=')

    def __gt__(self, o):
        return self._cmp(o, '>')

    def __ge__(self, o):
        return self._cmp(o, '>=')

    __hash__ = None

    def replace(self, **kw):
        names = ('year', 'month', 'day', 'hour', 'minute', 'second',
                 'microsecond', 'tzinfo')
        if set(kw) <= {'tzinfo'}:
            o = PDateTime.__new__(PDateTime)
            o._tot, o._f = self._tot, self._f
            o.microsecond = self.microsecond
            o.tzinfo = kw.get('tzinfo', self.tzinfo)
            return o
        return PDateTime(*[kw.get(n, getattr(self, n)) for n in names])

    def astimezone(self, tz):
        off = self.utcoffset()
        if off is None:
            raise ValueError('astimezone() cannot be applied to a naive '
                             'datetime')
        utc = self + (-off)
        new = tz.utcoffset(utc.replace(tzinfo=tz))
        return (utc + new).replace(tzinfo=tz)

    def strftime(self, f):
        fs = f.need()
        y = self.year
        if not truth(i_cmp('>=', y, 1900)):
            raise ValueError('year is before 1900')
        y = _narrow(y, 1900, 9999)
        out = []
        i = 0
        while i < len(fs):
            ch = fs[i]
            if ch != '%':
                out.append(ord(ch))
                i += 1
                continue
            k = fs[i + 1]
            i += 2
            if k == '%':
                out.append(37)
            elif k == 'Y':
                out += rt.fixed_digits(y, 10, 4)
            elif k == 'y':
                out += rt.fixed_digits(mod(y, 100), 10, 2)
            elif k in 'mdHMS':
                out += rt.fixed_digits(self.f['mdHMS'.index(k) + 1], 10, 2)
            elif k == 'f':
                out += rt.fixed_digits(self.microsecond, 10, 6)
            elif k == 'z':
                off = self.utcoffset()
                if off is not None:
                    s = off.s
                    sign = 43
                    if truth(i_cmp('<', s, 0)):
                        sign = 45
                        s = rt.neg(s)
                    s = _narrow(s, 0, None)
                    mins = floordiv(s, 60)
                    out.append(sign)
                    out += rt.fixed_digits(floordiv(mins, 60), 10, 2)
                    out += rt.fixed_digits(mod(mins, 60), 10, 2)
            elif k == 'Z':
                n = self.tzname()
                if n is not None:
                    out += list(n.c)
            else:
                raise Unsupported('strftime %%%s' % k)
        return PStr(tuple(out))

    def timetuple(self):
        return tuple(self.f) + (self.weekday(), 0, -1)

    def utctimetuple(self):
        off = self.utcoffset()
        o = self if off is None else self + (-off)
        return tuple(o.f) + (o.weekday(), 0, 0)

    def weekday(self):
        return mod(add(floordiv(self.tot, 86400), 6), 7)

    def toordinal(self):
        return floordiv(self.tot, 86400)

    def isoformat(self, sep=None):
        us = self.microsecond
        if not (type(us) is int and us == 0):
            raise Unsupported('isoformat with microseconds')
        y, m, d, h, mi, s = self.f
        return rt.fmt(S('%04d-%02d-%02d' + (sep.need() if sep else 'T') +
                        '%02d:%02d:%02d'), (y, m, d, h, mi, s))

    def __str__(self):
        return self.isoformat(S(' '))

    def __repr__(self):
        return '<datetime>'

    @classmethod
    def strptime(cls, s, f):
        fs = f.need()
        st = s.conc()
        if st is not None:
            d = _dt.datetime.strptime(st, fs)
            if 'S' in fs and d.second >= 60:
                raise ValueError('second')
            if d.tzinfo is not None:
                raise Unsupported('strptime %z')
            return cls(d.year, d.month, d.day, d.hour, d.minute, d.second,
                       d.microsecond)
        c = s.c
        vals = {}
        conds = []
        i = j = 0
        while i < len(fs):
            ch = fs[i]
            if ch != '%':
                if j >= len(c):
                    raise ValueError('does not match format')
                conds.append(i_cmp('==', c[j], ord(ch)))
                i += 1
                j += 1
                continue
            k = fs[i + 1]
            i += 2
            n = 4 if k == 'Y' else 2
            if k not in 'yYmdHMS':
                raise Unsupported('strptime %%%s' % k)
            if j + n > len(c):
                raise Unsupported('strptime: short field')
            ds = []
            for x in c[j:j + n]:
                o, v = rt.digit_value(x, 10)
                if o is not True:
                    if type(x) is int and 48 <= x <= 57:
                        pass
                    elif not only_hex(x):
                        raise Unsupported('strptime of arbitrary characters')
                conds.append(o)
                ds.append(v)
            j += n
            v = ds[0]
            for x in ds[1:]:
                v = add(mul(v, 10), x)
            vals[k] = v
        if j != len(c):
            raise ValueError('unconverted data remains')
        if 'y' in vals:
            v = vals['y']
            c69 = i_cmp('>=', v, 69)
            y = core.i_ite(as_z3(c69), add(v, 1900), add(v, 2000)) \
                if type(v) is SymInt else (v + 1900 if v >= 69 else v + 2000)
            y = _narrow(y, 1969, 2099)
        else:
            y = vals.get('Y', 1900)
        if land(conds) is False or not truth(land(conds)):
            raise ValueError('does not match format')
        if 'y' in vals and type(y) is SymInt:
            y = _narrow(y, 1969, 2068)
        return cls(y, vals.get('m', 1), vals.get('d', 1), vals.get('H', 0),
                   vals.get('M', 0), vals.get('S', 0))

    @classmethod
    def utcfromtimestamp(cls, ts):
        return from_ts(ts, 0)

    @classmethod
    def fromtimestamp(cls, ts, tz=None):
        if tz is not None:
            r = from_ts(ts, 0).replace(tzinfo=tz)
            return (r + tz.utcoffset(r)).replace(tzinfo=tz)
        return from_ts(ts, LOCAL_OFFSET)

    @classmethod
    def fromordinal(cls, n):
        return cls.of(mul(n, 86400), 0, None)

    @classmethod
    def utcnow(cls):
        raise Unsupported('clock')

    now = today = utcnow

    def __canon__(self):
        if type(self.tot) is SymInt:
            return None
        return ('datetime', self.tot, self.microsecond)

    def __canonc__(self, ctx, model):
        off = self.utcoffset()
        return ['dt', ctx.ev(model, self.tot),
                ctx.ev(model, self.microsecond),
                None if off is None else ctx.ev(model, off.s)]


def from_ts(ts, off):
    if type(ts) in (float, SymRat):
        ts = rt.int_(ts)
    ts = core.toint(ts)
    try:
        return PDateTime.of(add(ts, EPOCH * 86400 + off), 0, None)
    except OverflowError:
        raise ValueError('year is out of range')


def only_hex(x):
    """Symbolic char known to be a hex digit."""
    return type(x) is SymInt and x.prov is not None and x.prov[0] == 'dig'


def civil(days):
    """Proleptic ordinal -> y, m, d (Hinnant)."""
    if type(days) is int:
        d = _dt.date.fromordinal(days)
        return d.year, d.month, d.day
    z = add(days, 305)           # days since 0000-03-01
    era = floordiv(z, 146097)
    doe = mod(z, 146097)
    yoe = floordiv(add(sub(sub(doe, floordiv(doe, 1460)),
                           floordiv(doe, 146096)),
                       floordiv(doe, 36524)), 365)
    y = add(yoe, mul(era, 400))
    doy = sub(doe, sub(add(mul(yoe, 365), floordiv(yoe, 4)),
                       floordiv(yoe, 100)))
    doy = _narrow(doy, 0, 365)
    mp = floordiv(add(mul(doy, 5), 2), 153)
    d = add(sub(doy, floordiv(add(mul(mp, 153), 2), 5)), 1)
    d = _narrow(d, 1, 31)
    c = i_cmp('<', mp, 10)
    m = core.i_ite(as_z3(c), add(mp, 3), sub(mp, 9)) \
        if type(mp) is SymInt else (mp + 3 if mp < 10 else mp - 9)
    m = _narrow(m, 1, 12)
    y = add(y, b2i(i_cmp('<=', m, 2)))
    return _narrow(y, 1, 9999), m, d


class PTzinfo(object):
    def utcoffset(self, dt):
        raise NotImplementedError

    def tzname(self, dt):
        raise NotImplementedError

    def dst(self, dt):
        raise NotImplementedError


PDateTime.min = PDateTime(1, 1, 1)
PDateTime.max = PDateTime(9999, 12, 31, 23, 59, 59, 999999)
rt.canon_extra = None


# --------------------------------------------------------------------------
# files


class VFile(object):
    def __init__(self, fs, path, mode):
        self.fs = fs
        self.path = path
        self.mode = mode
        self.pos = 0
        self.closed = False
        if 'w' in mode:
            fs[path] = PStr(())
        elif 'a' in mode:
            fs.setdefault(path, PStr(()))
        elif path not in fs:
            raise IOError(2, 'No such file or directory')

    def read(self, n=-1):
        if ('w' in self.mode or 'a' in self.mode) and '+' not in self.mode:
            raise IOError(9, 'File not open for reading')
        c = self.fs[self.path].c
        n = rt.cint(n)
        if n < 0:
            r = c[self.pos:]
            self.pos = len(c)
        else:
            r = c[self.pos:self.pos + n]
            self.pos += len(r)
        return PStr(r)

    def write(self, s):
        if isinstance(s, PArray):
            s = rt.arr_tostring(s)
        if not ('w' in self.mode or 'a' in self.mode or '+' in self.mode):
            raise IOError(9, 'File not open for writing')
        c = tuple(self.fs[self.path].c)
        new = tuple(s.c)
        if 'a' in self.mode:
            self.pos = len(c)
        c += (0,) * (self.pos - len(c))
        self.fs[self.path] = PStr(c[:self.pos] + new +
                                  c[self.pos + len(new):])
        self.pos += len(new)

    def truncate(self, n=None):
        n = self.pos if n is None else rt.cint(n)
        c = tuple(self.fs[self.path].c)[:n]
        self.fs[self.path] = PStr(c + (0,) * (n - len(c)))

    def seek(self, p, whence=0):
        n = len(self.fs[self.path].c)
        self.pos = rt.cint(p) + (0, self.pos, n)[rt.cint(whence)]

    def tell(self):
        return self.pos

    def close(self):
        self.closed = True

    def flush(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.closed = True
        return False

    def __iter__(self):
        raise Unsupported('file iteration')


def vfs():
    c = C()
    if not hasattr(c, 'vfs') or c.vfs_path != c.path_id:
        c.vfs = {}
        c.vfs_path = c.path_id
    return c.vfs


def open_(path, mode=None, *a):
    m = mode.need() if mode is not None else 'r'
    return VFile(vfs(), path.need(), m)


def isfile(p):
    if not is_str(p):
        raise TypeError('path must be a string')
    return p.need() in vfs()


def os_stat(p):
    n = p.need()
    if n not in vfs():
        raise OSError(2, 'No such file or directory')
    r = [0] * 10
    r[6] = len(vfs()[n].c)

    class StatResult(tuple):
        st_size = r[6]
        __canonc__ = None
    return StatRes(tuple(r))


class StatRes(object):
    def __init__(self, t):
        self.t = t
        self.st_size = t[6]

    def __getitem__(self, i):
        return self.t[i]

    def __iter__(self):
        return iter(self.t)


def getsize(p):
    return os_stat(p).st_size


def os_remove(p):
    if p.need() not in vfs():
        raise OSError(2, 'No such file or directory')
    del vfs()[p.need()]


def os_rename(p, q):
    if p.need() not in vfs():
        raise OSError(2, 'No such file or directory')
    vfs()[q.need()] = vfs().pop(p.need())


def basename(p):
    i = strs.m_rfind(p, S('/'))
    return type(p)(p.c[i + 1:])


def dirname(p):
    i = strs.m_rfind(p, S('/'))
    return type(p)(p.c[:i]) if i > 0 else type(p)(p.c[:i + 1])


def path_join(a, *bs):
    r = a
    for b in bs:
        if b.need().startswith('/'):
            r = b
        elif r.need() == '' or r.need().endswith('/'):
            r = add(r, b)
        else:
            r = add(add(r, S('/')), b)
    return r


def splitext(p):
    import os
    a, b = os.path.splitext(p.need())
    return (type(p)(tuple(map(ord, a))), type(p)(tuple(map(ord, b))))


_mimes = _mt.MimeTypes()


def guess_type(p, strict=True):
    t, e = _mimes.guess_type(p.need())
    return (S(t) if t else None, S(e) if e else None)


# --------------------------------------------------------------------------
# XML


class Node(object):
    def __init__(self, tag):
        self.tagName = self.nodeName = S(tag) if isinstance(tag, str) else tag
        self.attrs = []
        self.childNodes = []
        self.parentNode = None

    def setAttribute(self, k, v):
        name = k.need()
        for a in self.attrs:
            if a[0] == name:
                a[1] = v
                return
        self.attrs.append([name, v])

    def getAttribute(self, k):
        for n, v in self.attrs:
            if n == k.need():
                return v
        return S('')

    def hasAttribute(self, k):
        return any(n == k.need() for n, v in self.attrs)

    def appendChild(self, n):
        if n.parentNode is not None:
            n.parentNode.childNodes = [x for x in n.parentNode.childNodes
                                       if x is not n]
        self.childNodes.append(n)
        n.parentNode = self
        return n

    def insertBefore(self, n, r):
        if r is None:
            return self.appendChild(n)
        if n.parentNode is not None:
            n.parentNode.childNodes = [x for x in n.parentNode.childNodes
                                       if x is not n]
        i = [k for k, x in enumerate(self.childNodes) if x is r][0]
        self.childNodes.insert(i, n)
        n.parentNode = self
        return n

    def removeChild(self, n):
        self.childNodes = [x for x in self.childNodes if x is not n]
        n.parentNode = None
        return n

    def getElementsByTagName(self, t):
        out = []
        for n in self.childNodes:
            if n.tagName.need() == t.need():
                out.append(n)
            out.extend(n.getElementsByTagName(t))
        return out

    def chars(self, ind, pretty, out):
        tab = [9] * ind if pretty else []
        nl = [10] if pretty else []
        out += tab + [60] + list(self.tagName.c)
        for n, v in sorted(self.attrs):
            out += [32] + [ord(c) for c in n] + [61, 34]
            if not is_str(v):
                raise AttributeError('replace')
            for x in v.c:
                for code, rep in ((38, '&amp;'), (60, '&lt;'),
                                  (34, '&quot;'), (62, '&gt;')):
                    if truth(i_cmp('==', x, code)):
                        out += [ord(c) for c in rep]
                        break
                else:
                    out.append(x)
            out += [34]
        if self.childNodes:
            out += [62] + nl
            for n in self.childNodes:
                n.chars(ind + 1, pretty, out)
            out += tab + [60, 47] + list(self.tagName.c) + [62] + nl
        else:
            out += [47, 62] + nl

    def tree(self):
        return (self.tagName,
                rt.mkdict([(S(n), v) for n, v in self.attrs]),
                [n.tree() for n in self.childNodes])

    def _text(self, pretty):
        def real():
            out = []
            self.chars(0, pretty, out)
            return out
        for n, v in self.allattrs():
            if not is_str(v):
                raise AttributeError("'%s' object has no attribute 'replace'"
                                     % rt.tname(v))
        r = PStr.lazy(real)
        r.dom = self.tree()
        return r

    def allattrs(self):
        for a in self.attrs:
            yield a
        for n in self.childNodes:
            for a in n.allattrs():
                yield a

    def toprettyxml(self, indent=None, newl=None, encoding=None):
        return self._text(True)

    def toxml(self, encoding=None):
        return self._text(False)


class XMLError(Exception):
    pass


def parse_xml(text):
    """(tag, attributes, children) of a document that was put together in
    another way than by the DOM.  Markup has to be concrete; symbolic
    characters are tried against the ones that mean something in them."""
    c = text.c
    n = len(c)
    pos = [0]
    SPACE = (32, 9, 10, 13)

    def isc(i, code):
        return i < n and truth(i_cmp('==', c[i], code))

    def space():
        while pos[0] < n and type(c[pos[0]]) is int and c[pos[0]] in SPACE:
            pos[0] += 1

    def name():
        out = []
        while pos[0] < n and type(c[pos[0]]) is int and \
                (chr(c[pos[0]]).isalnum() or c[pos[0]] in (45, 46, 58, 95)):
            out.append(c[pos[0]])
            pos[0] += 1
        if not out:
            raise XMLError('name expected')
        return PStr(tuple(out))

    def expect(code):
        if not isc(pos[0], code):
            raise XMLError('%c expected' % code)
        pos[0] += 1

    ENT = {'amp': 38, 'lt': 60, 'gt': 62, 'quot': 34, 'apos': 39}

    def value():
        q = 34 if isc(pos[0], 34) else 39
        expect(q)
        out = []
        while not isc(pos[0], q):
            if pos[0] >= n:
                raise XMLError('value without end')
            if isc(pos[0], 60):
                raise XMLError('< in a value')
            if isc(pos[0], 38):
                pos[0] += 1
                e = []
                while not isc(pos[0], 59):
                    if pos[0] >= n or len(e) > 6:
                        raise XMLError('entity without end')
                    e.append(chr(rt.cint(c[pos[0]])))
                    pos[0] += 1
                pos[0] += 1
                e = ''.join(e)
                if e not in ENT:
                    raise XMLError('unknown entity')
                out.append(ENT[e])
                continue
            x = c[pos[0]]
            out.append(32 if type(x) is int and x in SPACE else x)
            pos[0] += 1
        pos[0] += 1
        return PStr(tuple(out))

    def element():
        expect(60)
        tag = name()
        attrs = []
        while True:
            space()
            if isc(pos[0], 47):
                pos[0] += 1
                expect(62)
                return (tag, rt.mkdict(attrs), [])
            if isc(pos[0], 62):
                pos[0] += 1
                break
            k = name()
            space()
            expect(61)
            space()
            if any(k.need() == a.need() for a, _ in attrs):
                raise XMLError('attribute twice')
            attrs.append((k, value()))
        kids = []
        while True:
            while pos[0] < n and not isc(pos[0], 60):
                pos[0] += 1
            if isc(pos[0] + 1, 47):
                pos[0] += 2
                if name().need() != tag.need():
                    raise XMLError('other end tag')
                space()
                expect(62)
                return (tag, rt.mkdict(attrs), kids)
            kids.append(element())

    try:
        space()
        if isc(pos[0], 60) and isc(pos[0] + 1, 63):
            while not isc(pos[0], 62):
                pos[0] += 1
            pos[0] += 1
            space()
        r = element()
        space()
        if pos[0] != n:
            raise XMLError('text behind the document')
        return r
    except XMLError as e:
        raise ValueError('not well-formed: %s' % e)


class Document(Node):
    def __init__(self, tag=None):
        Node.__init__(self, '#document')
        self.documentElement = None
        if tag is not None:
            self.documentElement = Node(tag)
            self.documentElement.parentNode = self
            self.childNodes.append(self.documentElement)

    def createElement(self, t):
        return Node(t)

    def createTextNode(self, t):
        raise Unsupported('text nodes')


class DOMImpl(object):
    def createDocument(self, ns, tag, doctype):
        return Document(tag)


# --------------------------------------------------------------------------
# misc


def floor(x):
    t = type(x)
    if t in (int, bool):
        return float(x)
    if t in (float, SymRat):
        return rt._rfloor(x)
    if t in rt.INTS:
        return SymRat(core.toint(x), 1)
    raise TypeError('a float is required')


def ceil(x):
    return rt.neg(floor(rt.neg(x)))


def randint(a, b):
    a, b = rt.cint(a), rt.cint(b)
    if a > b:
        raise ValueError('empty range')
    return C().fresh('random', a, b)


def randrange(a, b=None, st=1):
    if b is None:
        a, b = 0, a
    if st != 1:
        raise Unsupported('randrange step')
    return randint(a, rt.cint(b) - 1)


def rand_choice(xs):
    n = rt.len_(xs)
    i = C().fresh('random', 0, n - 1)
    return rt.getitem(xs, i)


def it_chain(*xs):
    for x in xs:
        for v in rt.iter(x):
            yield v


def it_islice(x, *a):
    a = [v if v is None else rt.cint(v) for v in a]
    if len(a) == 1:
        start, stop, st = 0, a[0], 1
    else:
        start, stop = a[0] or 0, a[1]
        st = a[2] if len(a) > 2 and a[2] else 1
    it = rt.iter(x)
    i = 0
    nxt = start
    while stop is None or i < stop:
        try:
            v = next(it)
        except StopIteration:
            return
        if i == nxt:
            yield v
            nxt += st
        i += 1


def it_count(n=0, s=1):
    while True:
        yield n
        n = add(n, s)


def it_takewhile(f, x):
    for v in rt.iter(x):
        if not truth(f(v)):
            return
        yield v


def it_dropwhile(f, x):
    on = True
    for v in rt.iter(x):
        if on and truth(f(v)):
            continue
        on = False
        yield v


def it_izip(*xs):
    its = [rt.iter(x) for x in xs]
    while True:
        out = []
        for i in its:
            try:
                out.append(next(i))
            except StopIteration:
                return
        yield tuple(out)


def it_imap(f, *xs):
    for t in it_izip(*xs):
        yield f(*t)


def it_ifilter(f, x):
    for v in rt.iter(x):
        if truth(v if f is None else f(v)):
            yield v


def it_repeat(v, n=None):
    i = 0
    while n is None or i < n:
        yield v
        i += 1


def copy_copy(x):
    t = type(x)
    if t is list:
        return list(x)
    if t is PDict:
        return rt.d_copy(x)
    if t is PArray:
        return PArray(x.typecode, list(x.a))
    if t is PBytes:
        return PBytes(list(x.a))
    if t is PSet:
        return rt.set_(x)
    if t in rt.BUILTIN_T:
        return x
    o = t.__new__(t)
    o.__dict__.update(x.__dict__)
    return o


def copy_deep(x, memo=None):
    t = type(x)
    if t is list:
        return [copy_deep(v) for v in x]
    if t is tuple:
        return tuple(copy_deep(v) for v in x)
    if t is PDict:
        r = PDict()
        for k, v in x.entries():
            r.set(k, copy_deep(v), rt.eqv)
        return r
    if t is PArray:
        return PArray(x.typecode, list(x.a))
    if t is PBytes:
        return PBytes(list(x.a))
    if t in rt.BUILTIN_T or isinstance(x, (type, rt.TypeModel)):
        return x
    if isinstance(x, (PDateTime, PTimedelta)):
        return x
    o = t.__new__(t)
    for k, v in x.__dict__.items():
        o.__dict__[k] = copy_deep(v)
    return o


class PDefaultDict(PDict):
    def __init__(self, f=None, *a, **k):
        PDict.__init__(self)
        self.default_factory = f
        rt.dict_update(self, a, k)

    def __missing__(self, k):
        if self.default_factory is None:
            raise KeyError(k)
        v = self.default_factory()
        self.set(k, v, rt.eqv)
        return v


class PStringIO(object):
    """StringIO.StringIO and io.BytesIO"""

    def __init__(self, s=None):
        s = rt.unbytes(s)
        self.s = s if s is not None else S('')
        self.pos = 0

    def _all(self):
        return self.s.c

    def write(self, x):
        if isinstance(x, PArray):
            x = rt.arr_tostring(x)
        c, new = self.s.c, x.c
        c += (0,) * (self.pos - len(c))
        uni = type(self.s) is PUni or type(x) is PUni
        self.s = (PUni if uni else PStr)(
            c[:self.pos] + new + c[self.pos + len(new):])
        self.pos += len(new)

    def writelines(self, xs):
        for x in rt.iter(xs):
            self.write(x)

    def getvalue(self):
        return self.s

    def read(self, n=-1):
        c = self.s.c
        n = -1 if n is None else rt.cint(n)
        r = c[self.pos:] if n < 0 else c[self.pos:self.pos + n]
        self.pos += len(r)
        return type(self.s)(r)

    def readline(self, n=-1):
        c = self.s.c
        i = self.pos
        while i < len(c):
            i += 1
            if truth(i_cmp('==', c[i - 1], 10)):
                break
        r = c[self.pos:i]
        self.pos = i
        return type(self.s)(r)

    def readlines(self, hint=0):
        return list(self)

    def __iter__(self):
        while self.pos < len(self.s.c):
            yield self.readline()

    def truncate(self, n=None):
        n = self.pos if n is None else rt.cint(n)
        self.s = type(self.s)(self.s.c[:n])

    def tell(self):
        return self.pos

    def seek(self, p, w=0):
        p, w = rt.cint(p), rt.cint(w)
        self.pos = max(0, p + (0, self.pos, len(self.s.c))[w])

    def flush(self):
        pass

    def close(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


class PDeque(object):
    """collections.deque"""

    def __init__(self, it=(), maxlen=None):
        self.q = []
        self.maxlen = maxlen if maxlen is None else rt.cint(maxlen)
        self.extend(it)

    def _cut(self, left):
        if self.maxlen is not None:
            while len(self.q) > self.maxlen:
                self.q.pop(0 if left else -1)

    def append(self, x):
        self.q.append(x)
        self._cut(True)

    def appendleft(self, x):
        self.q.insert(0, x)
        self._cut(False)

    def extend(self, it):
        for x in list(rt.iter(it)):
            self.append(x)

    def extendleft(self, it):
        for x in list(rt.iter(it)):
            self.appendleft(x)

    def pop(self):
        if not self.q:
            raise IndexError('pop from an empty deque')
        return self.q.pop()

    def popleft(self):
        if not self.q:
            raise IndexError('pop from an empty deque')
        return self.q.pop(0)

    def clear(self):
        del self.q[:]

    def reverse(self):
        self.q.reverse()

    def remove(self, v):
        rt.list_remove(self.q, v)

    def count(self, v):
        return rt.list_count(self.q, v)

    def rotate(self, n=1):
        if self.q:
            n = rt.cint(n) % len(self.q)
            self.q[:] = self.q[-n:] + self.q[:-n] if n else self.q

    def __len__(self):
        return len(self.q)

    def __iter__(self):
        return self._iter(self.q)

    def __reversed__(self):
        return self._iter(self.q[::-1])

    def _iter(self, q):
        n = len(self.q)
        for x in list(q):
            if len(self.q) != n:
                raise RuntimeError('deque changed size during iteration')
            yield x

    def __getitem__(self, i):
        return rt.getitem(self.q, i)

    def __setitem__(self, i, v):
        rt.setitem(self.q, i, v)

    def __delitem__(self, i):
        rt.delitem(self.q, i)

    def __contains__(self, v):
        return truth(rt.in_(v, self.q))

    def __eq__(self, o):
        return type(o) is PDeque and rt.eqv(self.q, o.q)

    __hash__ = None


class StructError(Exception):
    pass


StructError.__name__ = 'error'


def struct_size(f):
    n = 0
    for cnt, ch in struct_items(f.need()):
        n += cnt * STRUCT[ch]
    return n


STRUCT = {'B': 1, 'b': 1, 'H': 2, 'h': 2, 'I': 4, 'i': 4, 'L': 4, 'l': 4,
          'Q': 8, 'q': 8, 's': 1, 'x': 1, 'c': 1}


def struct_items(fs):
    import re
    if fs[:1] not in '><!=' or not fs:
        # sizes and order of the machine, padded
        if set(fs.lstrip('@').lstrip('0123456789')[1:]) - \
                set('0123456789Bbsxc '):
            raise Unsupported('struct format')
    body = fs.lstrip('><!=@').replace(' ', '')
    if not re.match(r'^(\d*[BbHhIiLlQqsxc])*$', body):
        raise Unsupported('struct format')
    return [(int(n) if n else 1, ch) for n, ch in
            re.findall(r'(\d*)([BbHhIiLlQqsxc])', body)]


def struct_pack(f, *vals):
    fs = f.need()
    be = fs[:1] != '<'
    out = []
    vals = list(vals)
    for cnt, ch in struct_items(fs):
        if ch == 'x':
            out += [0] * cnt
            continue
        if ch in 'sc':
            if not vals:
                raise StructError('too few arguments')
            v = vals.pop(0)
            if type(v) is not PStr or (ch == 'c' and len(v.c) != 1):
                raise StructError("argument for 's' must be a string")
            if ch == 'c' and cnt > 1:
                raise Unsupported('struct format')
            out += (list(v.c) + [0] * cnt)[:cnt]
            continue
        for _ in range(cnt):
            if not vals:
                raise StructError('too few arguments')
            n = STRUCT[ch]
            v = vals.pop(0)
            if type(v) not in rt.INTS:
                raise StructError('required argument is not an integer')
            v = core.toint(v)
            # Jython wraps what fits its own integers
            lo, hi = {'Q': (0, 2 ** 64), 'q': (-2 ** 63, 2 ** 63),
                      'I': (-2 ** 63, 2 ** 63), 'L': (-2 ** 63, 2 ** 63)}.get(
                          ch, (-2 ** 31, 2 ** 31))
            if not truth(land([i_cmp('>=', v, lo), i_cmp('<', v, hi)])):
                raise StructError('integer out of range')
            l, h = core.rng(v)
            if l < 0 or h >= 256 ** n:
                v = rt.mod(v, 256 ** n)
            bs = [rt.and__(rt.shr(v, 8 * k), 255) for k in range(n)]
            out += bs[::-1] if be else bs
    if vals:
        raise StructError('too many arguments')
    return PStr(tuple(out))


def struct_unpack(f, s):
    fs = f.need()
    be = fs[:1] != '<'
    c = list(s.c) if is_str(s) else list(s.a)
    if len(c) != struct_size(f):
        raise StructError('unpack str size does not match format')
    out = []
    for cnt, ch in struct_items(fs):
        if ch == 'x':
            c = c[cnt:]
            continue
        if ch == 's':
            out.append(PStr(tuple(c[:cnt])))
            c = c[cnt:]
            continue
        for _ in range(cnt):
            n = STRUCT[ch]
            b = c[:n]
            c = c[n:]
            if ch == 'c':
                out.append(PStr(tuple(b)))
                continue
            if not be:
                b = b[::-1]
            v = 0
            for x in b:
                v = rt.or__(rt.shl(v, 8), x)
            if ch.islower():
                if truth(i_cmp('>=', v, 256 ** n // 2)):
                    v = sub(v, 256 ** n)
            out.append(v)
    return tuple(out)


def struct_unpack_from(f, s, off=0):
    off = rt.cint(off)
    n = struct_size(f)
    c = list(s.c) if is_str(s) else list(s.a)
    if off < 0:
        off += len(c)
    if len(c) - off < n:
        raise StructError('unpack_from str size does not match format')
    return struct_unpack(f, PStr(tuple(c[off:off + n])))


class PStruct(object):
    def __init__(self, f):
        self.format = f
        self.size = struct_size(f)

    def pack(self, *v):
        return struct_pack(self.format, *v)

    def unpack(self, s):
        return struct_unpack(self.format, s)

    def unpack_from(self, s, off=0):
        return struct_unpack_from(self.format, s, off)


def bisect_right(a, x, lo=0, hi=None):
    lo = rt.cint(lo)
    hi = rt.len_(a) if hi is None else rt.cint(hi)
    while lo < hi:
        mid = (lo + hi) // 2
        if truth(rt.lt(x, rt.getitem(a, mid))):
            hi = mid
        else:
            lo = mid + 1
    return lo


def bisect_left(a, x, lo=0, hi=None):
    lo = rt.cint(lo)
    hi = rt.len_(a) if hi is None else rt.cint(hi)
    while lo < hi:
        mid = (lo + hi) // 2
        if truth(rt.lt(rt.getitem(a, mid), x)):
            lo = mid + 1
        else:
            hi = mid
    return lo


def insort(a, x, lo=0, hi=None):
    a.insert(bisect_right(a, x, lo, hi), x)


def it_starmap(f, xs):
    for t in rt.iter(xs):
        yield f(*list(rt.iter(t)))


def it_cycle(x):
    xs = list(rt.iter(x))
    while xs:
        for v in xs:
            yield v


def it_ifilterfalse(f, x):
    for v in rt.iter(x):
        if not truth(v if f is None else f(v)):
            yield v


def it_compress(x, sel):
    for v, k in it_izip(x, sel):
        if truth(k):
            yield v


def it_izip_longest(*xs, **k):
    fill = k.get('fillvalue')
    its = [rt.iter(x) for x in xs]
    live = len(its)
    while live:
        out = []
        for n, i in enumerate(its):
            v = fill
            if i is not None:
                try:
                    v = next(i)
                except StopIteration:
                    its[n] = None
                    live -= 1
            out.append(v)
        if not live:
            return
        yield tuple(out)


def it_product(*xs, **k):
    import itertools
    return itertools.product(*[list(rt.iter(x)) for x in xs],
                             repeat=rt.cint(k.get('repeat', 1)))


def it_groupby(x, key=None):
    run = []
    last = None
    for v in rt.iter(x):
        k = v if key is None else key(v)
        if run and not truth(rt.eqv(k, last)):
            yield (last, iter(run))
            run = []
        if not run:
            last = k
        run.append(v)
    if run:
        yield (last, iter(run))


class Closing(object):
    def __init__(self, o):
        self.o = o

    def __enter__(self):
        return self.o

    def __exit__(self, *a):
        rt.ga(self.o, 'close')()
        return False


def contextmanager(f):
    import contextlib
    return contextlib.contextmanager(f)


def codecs_register(f):
    strs.SEARCH.append(f)


def codecs_lookup(n):
    r = strs.lookup(n)
    if r is None:
        raise Unsupported('codecs.lookup')
    return r


class VersionInfo(tuple):
    pass


def timegm(t):
    y, m, d, h, mi, s = list(rt.iter(t))[:6]
    return sub(add(add(mul(ordinal(y, m, d), 86400), mul(h, 3600)),
                   add(mul(mi, 60), s)), EPOCH * 86400)


def mktime(t):
    return rt.float_(sub(timegm(t), LOCAL_OFFSET))


class NullOut(object):
    def write(self, *a):
        pass

    def flush(self):
        pass


def itemgetter(*ks):
    if len(ks) == 1:
        return lambda o: rt.getitem(o, ks[0])
    return lambda o: tuple(rt.getitem(o, k) for k in ks)


def attrgetter(k):
    def f(o):
        for n in k.need().split('.'):
            o = rt.ga(o, n)
        return o
    return f


def methodcaller(n, *a, **k):
    return lambda o: rt.ga(o, n.need())(*a, **k)


def partial(f, *a, **k):
    return lambda *b, **c: f(*(a + b), **dict(k, **c))


def logger(*a):
    return Logger()


class Logger(object):
    def debug(self, *a, **k):
        pass
    info = warning = warn = error = critical = exception = debug
    addHandler = setLevel = debug

    def isEnabledFor(self, *a):
        return False


def modules():
    import re
    M = {}

    def m(name, **attrs):
        M[name] = Mod(name, attrs)
        return M[name]
    T_dt = PDateTime
    m('datetime', datetime=PDateTime, timedelta=PTimedelta, tzinfo=PTzinfo,
      date=PDate, MINYEAR=1, MAXYEAR=9999)
    m('re', compile=strs.compile_,
      match=lambda p, s, f=0: strs.compile_(p, f).match(s),
      search=lambda p, s, f=0: strs.compile_(p, f).search(s),
      sub=lambda p, r, s, count=0, flags=0: strs.compile_(p, flags).sub(
          r, s, count),
      findall=lambda p, s, f=0: strs.compile_(p, f).findall(s),
      finditer=lambda p, s, f=0: strs.compile_(p, f).finditer(s),
      split=lambda p, s, maxsplit=0, flags=0: strs.compile_(p, flags).split(
          s, maxsplit),
      escape=lambda s: S(re.sub(r'([^a-zA-Z0-9])', r'\\\1', s.need())),
      I=2, IGNORECASE=2, M=8, MULTILINE=8, S=16, DOTALL=16, X=64, VERBOSE=64,
      U=32, UNICODE=32)
    m('codecs', register=codecs_register, CodecInfo=strs.CodecInfo,
      lookup=codecs_lookup, encode=lambda s, e=None, r=None: strs.encode(
          s, e, r),
      decode=lambda s, e=None, r=None: strs.decode(s, e, r), open=open_,
      getencoder=lambda n: codecs_lookup(n).encode,
      getdecoder=lambda n: codecs_lookup(n).decode)
    m('math', floor=floor, ceil=ceil, pi=_math.pi,
      log=lambda *a: _math.log(*a), sqrt=lambda x: _math.sqrt(x))
    m('sys', version_info=(2, 7, 3, S('final'), 0), maxint=2147483647,
      stdout=NullOut(), stderr=NullOut(), maxunicode=0x10ffff,
      version=S('2.7.3'), platform=S('java'), byteorder=S('big'),
      exc_info=lambda: (None, None, None), exc_clear=lambda: None)
    m('array', array=rt.T_array, ArrayType=rt.T_array)
    m('traceback', print_exc=lambda *a, **k: None,
      format_exc=lambda *a: S(''))
    path = m('os.path', isfile=isfile, exists=isfile, lexists=isfile,
             isdir=lambda p: False, islink=lambda p: False, basename=basename,
             dirname=dirname, join=path_join, getsize=getsize,
             splitext=splitext, sep=S('/'), abspath=lambda p: p,
             split=lambda p: (dirname(p), basename(p)))
    m('os', path=path, stat=os_stat, sep=S('/'), environ=PDict(),
      remove=os_remove, unlink=os_remove, rename=os_rename,
      access=lambda p, mode: isfile(p), F_OK=0, R_OK=4, W_OK=2, X_OK=1,
      SEEK_SET=0, SEEK_CUR=1, SEEK_END=2, linesep=S('\n'))
    M['posixpath'] = path
    m('random', randint=randint, randrange=randrange, choice=rand_choice)
    m('mimetypes', guess_type=guess_type)
    md = m('xml.dom.minidom', getDOMImplementation=lambda *a: DOMImpl(),
           Document=Document)
    d = m('xml.dom', minidom=md, getDOMImplementation=lambda *a: DOMImpl())
    m('xml', dom=d)
    m('struct', pack=struct_pack, unpack=struct_unpack, error=StructError,
      unpack_from=struct_unpack_from, calcsize=struct_size, Struct=PStruct)
    m('binascii', hexlify=lambda s: strs.encode(s, S('hex')),
      unhexlify=lambda s: strs.decode(s, S('hex')),
      b2a_hex=lambda s: strs.encode(s, S('hex')),
      a2b_hex=lambda s: strs.decode(s, S('hex')))
    m('itertools', chain=it_chain, islice=it_islice, count=it_count,
      takewhile=it_takewhile, dropwhile=it_dropwhile, izip=it_izip,
      imap=it_imap, ifilter=it_ifilter, repeat=it_repeat,
      starmap=it_starmap, cycle=it_cycle, ifilterfalse=it_ifilterfalse,
      compress=it_compress, izip_longest=it_izip_longest,
      product=it_product, groupby=it_groupby,
      tee=lambda it, n=2: __import__('itertools').tee(rt.iter(it), n))
    it_chain.from_iterable = lambda x: it_chain(*list(rt.iter(x)))
    m('operator', itemgetter=itemgetter, attrgetter=attrgetter, add=rt.add,
      or_=rt.or__, and_=rt.and__, xor=rt.xor, mul=rt.mul, sub=rt.sub,
      lshift=rt.shl, rshift=rt.shr, eq=rt.eq, ne=rt.ne, lt=rt.lt, gt=rt.gt,
      le=rt.le, ge=rt.ge, getitem=rt.getitem, contains=lambda c, k:
      rt.in_(k, c), not_=rt.not_, index=core.toint, floordiv=rt.floordiv,
      mod=rt.mod, neg=rt.neg, inv=rt.inv, invert=rt.inv, concat=rt.add,
      truth=rt.truth, methodcaller=methodcaller)
    m('functools', partial=partial, reduce=rt.reduce_,
      wraps=lambda f, *a: (lambda g: g), update_wrapper=lambda g, f: g)
    m('collections', OrderedDict=rt.T_dict, defaultdict=PDefaultDict,
      deque=PDeque)
    m('bisect', bisect=bisect_right, bisect_right=bisect_right,
      bisect_left=bisect_left, insort=insort, insort_right=insort)
    m('numbers', Integral=rt.T_integer, Number=rt.T_number)
    import string
    m('string', **dict((k, S(getattr(string, k))) for k in
                       ('digits', 'hexdigits', 'octdigits', 'whitespace',
                        'punctuation', 'printable', 'ascii_letters',
                        'ascii_lowercase', 'ascii_uppercase')))
    M['string'].letters = S(string.ascii_letters)
    M['string'].maketrans = lambda a, b: PStr(tuple(
        b.c[a.c.index(i)] if i in a.c else i for i in range(256)))
    M['string'].join = lambda xs, sep=None: strs.m_join(
        sep if sep is not None else S(' '), xs)
    m('StringIO', StringIO=PStringIO)
    m('cStringIO', StringIO=PStringIO)
    m('io', BytesIO=PStringIO, StringIO=PStringIO, open=open_)
    m('copy', copy=copy_copy, deepcopy=copy_deep)
    m('logging', getLogger=logger, debug=lambda *a, **k: None,
      info=lambda *a, **k: None, warning=lambda *a, **k: None,
      error=lambda *a, **k: None, DEBUG=10, INFO=20, WARNING=30,
      NullHandler=Logger)
    m('warnings', warn=lambda *a, **k: None)
    m('types', StringType=rt.T_str, UnicodeType=rt.T_unicode,
      StringTypes=(rt.T_str, rt.T_unicode), IntType=rt.T_int,
      LongType=rt.T_long, ListType=rt.T_list, TupleType=rt.T_tuple,
      DictType=rt.T_dict, NoneType=rt.T_none)
    m('calendar', timegm=timegm, isleap=isleap,
      monthrange=lambda y, mo: (0, month_len(y, mo)))
    m('time', mktime=mktime,
      gmtime=lambda ts: PDateTime.utcfromtimestamp(ts).timetuple(),
      localtime=lambda ts: PDateTime.fromtimestamp(ts).timetuple())
    m('unittest', TestCase=object)
    m('__builtin__', **builtin_table())
    m('contextlib', closing=Closing, contextmanager=contextmanager)
    m('encodings')
    return M


def builtin_table():
    import builtins as b
    t = {
        'int': rt.T_int, 'long': rt.T_long, 'bool': rt.T_bool,
        'float': rt.T_float, 'str': rt.T_str, 'unicode': rt.T_unicode,
        'basestring': rt.T_basestring, 'list': rt.T_list,
        'tuple': rt.T_tuple, 'dict': rt.T_dict, 'set': rt.T_set,
        'frozenset': rt.T_frozenset, 'bytearray': rt.T_bytearray, 'object': rt.T_object,
        'type': rt.T_type, 'slice': rt.T_slice, 'bytes': rt.T_str,
        'len': rt.len_, 'range': rt.range_, 'xrange': rt.xrange_,
        'enumerate': rt.enumerate_, 'zip': rt.zip_, 'map': rt.map_,
        'filter': rt.filter_, 'reduce': rt.reduce_,
        'reversed': rt.reversed_, 'sorted': rt.sorted_, 'any': rt.any_,
        'all': rt.all_, 'sum': rt.sum_, 'min': rt.min_, 'max': rt.max_,
        'abs': rt.abs_, 'divmod': rt.divmod_, 'round': rt.round_,
        'pow': rt.pow_, 'hex': rt.hex_, 'oct': rt.oct_, 'chr': rt.chr_,
        'unichr': rt.unichr_, 'ord': rt.ord_, 'repr': rt.repr_,
        'cmp': rt.cmp_, 'callable': rt.callable_, 'id': rt.id_,
        'hash': rt.hash_, 'isinstance': rt.isinstance_,
        'issubclass': rt.issubclass_, 'hasattr': rt.hasattr_,
        'getattr': rt.getattr_, 'setattr': rt.setattr_,
        'delattr': rt.delattr_, 'iter': rt_iter, 'next': rt.next_,
        'open': open_, 'file': open_, 'super': super, 'property': property,
        'classmethod': classmethod, 'staticmethod': staticmethod,
        'True': True, 'False': False, 'None': None,
        'NotImplemented': NotImplemented, 'Ellipsis': Ellipsis,
        '__build_class__': b.__build_class__,
        'bin': rt.bin_, 'apply': rt.apply_, 'vars': rt.vars_,
        'format': rt.format_, 'buffer': lambda x: x, 'intern': lambda x: x,
        'unicode_literals': None,
    }
    for n in ('locals', 'globals', 'dir', 'memoryview', 'eval', 'execfile',
              'compile', 'complex', 'coerce', 'reload', '__import__', 'input',
              'raw_input', 'help'):
        t[n] = rt.Missing(n)
    for n in dir(b):
        v = getattr(b, n)
        if isinstance(v, type) and issubclass(v, BaseException):
            t[n] = v
    t['StandardError'] = Exception
    return t


def rt_iter(x, *sentinel):
    if sentinel:
        def g():
            while True:
                v = x()
                if truth(rt.eqv(v, sentinel[0])):
                    return
                yield v
        return g()
    return rt.iter(x)
