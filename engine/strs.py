"""String methods, regular expressions and codecs over symbolic strings."""
import re as _re
try:
    from re import _parser as sre_parse, _constants as sre_c
except ImportError:              # pragma: no cover
    import sre_parse
    import sre_constants as sre_c
import z3
from . import core, rt
from .core import SymInt, SymBool, Unsupported, i_cmp, as_z3, rng
from .vals import (PStr, PUni, PDict, S, U, one, is_str, str_eq, in_ranges,
                   PArray)
from .rt import truth, land, lor, lnot, _narrow

WS = (9, 10, 11, 12, 13, 32)
WS_S = WS + (28, 29, 30, 31)     # Jython strips these as well? handled below


def C():
    return core.CTX


def same_cls(*ss):
    for s in ss:
        if type(s) is PUni or isinstance(s, PUni):
            return PUni
    return PStr


def need_str(x):
    x = rt.unbytes(x)
    if not is_str(x) and not isinstance(x, (PStr, PUni)):
        raise TypeError('expected a character buffer object')
    return x


def char_in(x, codes):
    if type(x) is int:
        return x in codes
    return in_ranges(x, codes)


def strip_idx(s, chars, left, right):
    c = s.c
    codes = WS if chars is None else tuple(need_str(chars).c)
    if any(type(x) is not int for x in codes):
        raise Unsupported('strip of symbolic characters')
    if chars is None and type(s) is PUni:
        codes = WS + (28, 29, 30, 31, 0x85, 0xa0, 0x1680, 0x2028, 0x2029,
                      0x202f, 0x205f, 0x3000) + tuple(range(0x2000, 0x200b))
    a, b = 0, len(c)
    if left:
        while a < b and truth(char_in(c[a], codes)):
            a += 1
    if right:
        while b > a and truth(char_in(c[b - 1], codes)):
            b -= 1
    return type(s)(c[a:b])


def m_strip(s, chars=None):
    return strip_idx(s, chars, True, True)


def m_lstrip(s, chars=None):
    return strip_idx(s, chars, True, False)


def m_rstrip(s, chars=None):
    return strip_idx(s, chars, False, True)


def match_at(c, i, k):
    """k matches in c at i, as bool/SymBool."""
    if i + len(k) > len(c) or i < 0:
        return False
    return land([i_cmp('==', c[i + j], k[j]) for j in range(len(k))])


def m_startswith(s, p, start=0, stop=None):
    if type(p) is tuple:
        return lor([m_startswith(s, q) for q in p])
    if start or stop is not None:
        s = rt.getitem(s, slice(start, stop))
    return match_at(s.c, 0, need_str(p).c)


def m_endswith(s, p, start=0, stop=None):
    if type(p) is tuple:
        return lor([m_endswith(s, q) for q in p])
    if start or stop is not None:
        s = rt.getitem(s, slice(start, stop))
    return match_at(s.c, len(s.c) - len(need_str(p).c), p.c)


def bounds(n, start, stop):
    sl = rt.cslice(slice(start, stop), n)
    a, b, _ = sl.indices(n)
    return a, b


def m_find(s, k, start=None, stop=None):
    c, k = s.c, need_str(k).c
    a, b = bounds(len(c), start, stop)
    for i in range(a, b - len(k) + 1):
        if truth(match_at(c, i, k)):
            return i
    return -1


def m_rfind(s, k, start=None, stop=None):
    c, k = s.c, need_str(k).c
    a, b = bounds(len(c), start, stop)
    for i in range(b - len(k), a - 1, -1):
        if truth(match_at(c, i, k)):
            return i
    return -1


def m_index(s, *a):
    i = m_find(s, *a)
    if i < 0:
        raise ValueError('substring not found')
    return i


def m_rindex(s, *a):
    i = m_rfind(s, *a)
    if i < 0:
        raise ValueError('substring not found')
    return i


def m_count(s, k, start=None, stop=None):
    c, k = s.c, need_str(k).c
    a, b = bounds(len(c), start, stop)
    if not k:
        return b - a + 1
    n, i = 0, a
    while i + len(k) <= b:
        if truth(match_at(c, i, k)):
            n += 1
            i += len(k)
        else:
            i += 1
    return n


def m_replace(s, old, new, count=-1):
    cls = same_cls(s, old, new)
    c, o, w = s.c, need_str(old).c, need_str(new).c
    if cls is PUni and type(s) is PStr:
        c = rt.to_uni(s).c
    count = rt.cint(count)
    if not o:
        raise Unsupported('replace of an empty string')
    # one symbolic char against a one-char replacement needs no fork
    if len(o) == 1 and len(w) == 1 and count < 0:
        out = []
        for x in c:
            e = i_cmp('==', x, o[0])
            if e is True:
                out.append(w[0])
            elif e is False:
                out.append(x)
            else:
                out.append(core.i_ite(e.e, w[0], x))
        return cls(tuple(out))
    out = []
    i = n = 0
    while i < len(c):
        if (count < 0 or n < count) and truth(match_at(c, i, o)):
            out.extend(w)
            i += len(o)
            n += 1
        else:
            out.append(c[i])
            i += 1
    return cls(tuple(out))


def m_split(s, sep=None, maxsplit=-1):
    cls = type(s)
    c = s.c
    maxsplit = rt.cint(maxsplit)
    out = []
    if sep is None:
        i = 0
        n = 0
        while True:
            while i < len(c) and truth(char_in(c[i], WS)):
                i += 1
            if i >= len(c):
                break
            if maxsplit >= 0 and n >= maxsplit:
                out.append(cls(c[i:]))
                break
            j = i
            while j < len(c) and not truth(char_in(c[j], WS)):
                j += 1
            out.append(cls(c[i:j]))
            n += 1
            i = j
        return out
    cls = same_cls(s, sep)
    k = need_str(sep).c
    if not k:
        raise ValueError('empty separator')
    i = start = n = 0
    while i + len(k) <= len(c):
        if (maxsplit < 0 or n < maxsplit) and truth(match_at(c, i, k)):
            out.append(cls(c[start:i]))
            i += len(k)
            start = i
            n += 1
        else:
            i += 1
    out.append(cls(c[start:]))
    return out


def m_rsplit(s, sep=None, maxsplit=-1):
    maxsplit = rt.cint(maxsplit)
    if maxsplit < 0:
        return m_split(s, sep)
    if sep is None:
        raise Unsupported('rsplit on blanks')
    cls = same_cls(s, sep)
    c, k = s.c, need_str(sep).c
    out = []
    end = len(c)
    i = end - len(k)
    n = 0
    while i >= 0 and n < maxsplit:
        if truth(match_at(c, i, k)):
            out.append(cls(c[i + len(k):end]))
            end = i
            n += 1
            i -= len(k)
        else:
            i -= 1
    out.append(cls(c[:end]))
    out.reverse()
    return out


def m_partition(s, sep):
    i = m_find(s, sep)
    cls = type(s)
    if i < 0:
        return (s, cls(()), cls(()))
    return (cls(s.c[:i]), sep, cls(s.c[i + len(sep.c):]))


def m_rpartition(s, sep):
    i = m_rfind(s, sep)
    cls = type(s)
    if i < 0:
        return (cls(()), cls(()), s)
    return (cls(s.c[:i]), sep, cls(s.c[i + len(sep.c):]))


def m_splitlines(s, keep=False):
    if s.conc() is not None:
        return [type(s)(tuple(map(ord, x)))
                for x in s.conc().splitlines(keep)]
    raise Unsupported('splitlines')


def m_join(s, it):
    parts = list(rt.iter(it))
    lz = False
    uni = type(s) is PUni
    for p in parts:
        if type(p) is PUni:
            uni = True
        elif type(p) is PStr:
            if p._lazy is not None:
                lz = True
        else:
            raise TypeError('sequence item: expected string, %s found'
                            % rt.tname(p))
    if len(parts) == 1:
        return rt.to_uni(parts[0]) if uni else parts[0]
    if not parts:
        # ''.join([]) and u''.join([])
        return type(s)(())
    if lz and not uni:
        def real():
            out = []
            for i, p in enumerate(parts):
                if i:
                    out.extend(s.c)
                out.extend(p.c)
            return out
        return PStr.lazy(real)
    if uni:
        parts = [rt.to_uni(p) for p in parts]
        s = rt.to_uni(s)
    out = []
    for i, p in enumerate(parts):
        if i and s.c:
            out.extend(s.c)
        out.extend(p.c)
    return (PUni if uni else PStr)(tuple(out))


def map_char(x, lo, hi, delta, kind=None):
    """x shifted by delta where lo<=x<=hi."""
    if type(x) is int:
        return x + delta if lo <= x <= hi else x
    a, b = rng(x)
    if b < lo or a > hi:
        return x
    c = land([i_cmp('>=', x, lo), i_cmp('<=', x, hi)])
    y = core.i_add(x, delta)
    if c is True:
        return y
    na, nb = a, b
    if delta < 0:          # upper
        na = min(a, max(lo, a) + delta)
        nb = b if b > hi else max(min(lo - 1, b), min(hi, b) + delta)
    else:
        nb = max(b, min(hi, b) + delta)
        na = a if a < lo else max(min(hi + 1, b), a) if b > hi else a
        na = min(a, na)
    r = core.i_ite(c.e, y, x)
    r = _narrow(r, na, nb)
    return r


def recase(s, upper):
    out = []
    for x in s.c:
        p = x.prov if type(x) is SymInt else None
        if p is not None and p[0] == 'dig':
            y = rt.digchar(p[1], upper)
            if len(p) == 5:
                y.prov = p
            out.append(y)
            continue
        if upper:
            y = map_char(x, 97, 122, -32)
        else:
            y = map_char(x, 65, 90, 32)
        if type(s) is PUni:
            if type(x) is int:
                if x > 127:
                    t = chr(x).upper() if upper else chr(x).lower()
                    y = ord(t) if len(t) == 1 else x
            elif rng(x)[1] > 127:
                if not truth(i_cmp('<', x, 128)):
                    raise Unsupported('case of a non-ASCII symbolic char')
        out.append(y)
    return type(s)(tuple(out))


def m_upper(s):
    if s.conc() is not None and type(s) is PStr:
        return S(''.join(ch.upper() if ch < '\x80' else ch for ch in s._s))
    return recase(s, True)


def m_lower(s):
    if s.conc() is not None and type(s) is PStr:
        return S(''.join(ch.lower() if ch < '\x80' else ch for ch in s._s))
    return recase(s, False)


def m_capitalize(s):
    if not s.c:
        return s
    cls = type(s)
    return cls(m_upper(cls(s.c[:1])).c + m_lower(cls(s.c[1:])).c)


def m_title(s):
    t = s.conc()
    if t is None:
        raise Unsupported('title')
    return type(s)(tuple(map(ord, t.title())))


def m_swapcase(s):
    t = s.conc()
    if t is None:
        raise Unsupported('swapcase')
    return type(s)(tuple(map(ord, t.swapcase())))


def all_in(s, ranges, ufn=None):
    if not s.c:
        return False
    out = []
    for x in s.c:
        if type(s) is PUni and ufn is not None:
            if type(x) is int:
                out.append(ufn(chr(x)))
                continue
            if rng(x)[1] > 127 and not truth(i_cmp('<', x, 128)):
                raise Unsupported('unicode character class')
        if type(x) is int:
            out.append(any(a <= x <= b for a, b in ranges))
        else:
            out.append(lor([land([i_cmp('>=', x, a), i_cmp('<=', x, b)])
                            for a, b in ranges]))
    return land(out)


def m_isdigit(s):
    return all_in(s, [(48, 57)], str.isdigit)


def m_isalpha(s):
    return all_in(s, [(65, 90), (97, 122)], str.isalpha)


def m_isalnum(s):
    return all_in(s, [(48, 57), (65, 90), (97, 122)], str.isalnum)


def m_isspace(s):
    return all_in(s, [(9, 13), (32, 32)], str.isspace)


def m_isupper(s):
    t = s.need()
    return t.isupper()


def m_islower(s):
    t = s.need()
    return t.islower()


def m_zfill(s, n):
    n = rt.cint(n)
    c = s.c
    if len(c) >= n:
        return s
    return type(s)((48,) * (n - len(c)) + c)


def _fill(f):
    return 32 if f is None else f.c[0]


def m_ljust(s, n, f=None):
    n = rt.cint(n)
    return type(s)(s.c + (_fill(f),) * max(0, n - len(s.c)))


def m_rjust(s, n, f=None):
    n = rt.cint(n)
    return type(s)((_fill(f),) * max(0, n - len(s.c)) + s.c)


def m_center(s, n, f=None):
    n = rt.cint(n)
    t = s.need()
    return type(s)(tuple(map(ord, t.center(n, chr(_fill(f))))))


def m_translate(s, table, delete=None):
    if type(s) is PUni:
        raise Unsupported('unicode.translate')
    c = s.c
    if delete is not None:
        d = tuple(delete.c)
        c = tuple(x for x in c if not truth(char_in(x, d)))
    if table is None:
        return PStr(c)
    return PStr(tuple(rt.seq_index(table.c, x) if type(x) is SymInt
                      else table.c[x] for x in c))


SPEC = _re.compile(r'^(?:(.)?([<>=^]))?([ +-]?)(#?)(0?)(\d*)(,?)'
                   r'(?:\.(\d+))?([a-zA-Z%]?)$', _re.S)


def format_value(v, spec, uni):
    """format(v, spec)"""
    out = PUni if uni else PStr
    m = SPEC.match(spec)
    if not m:
        raise ValueError('Invalid conversion specification')
    fill, align, sign, alt, zero, width, comma, prec, ty = m.groups()
    width = int(width or 0)
    neg = []
    if type(v) in rt.INTS and type(v) not in (bool, core.SymBool) and \
            ty not in tuple('eEfFgG%'):
        if prec is not None:
            raise ValueError('Precision not allowed in integer format')
        if comma:
            raise Unsupported('thousands')
        v = core.toint(v)
        if ty == 'c':
            c = [v]
        else:
            base = {'x': 16, 'X': 16, 'o': 8, 'b': 2}.get(ty, 10)
            if ty not in ('', 'd', 'n', 'x', 'X', 'o', 'b'):
                raise ValueError("Unknown format code '%s'" % ty)
            c = rt.int_chars(v, base, ty == 'X')
            if c and type(c[0]) is int and c[0] == 45:
                neg, c = [45], c[1:]
            elif sign in ('+', ' ') and sign:
                neg = [ord(sign)]
            if alt and base != 10:
                neg = neg + [48, ord(ty)]
        align = align or ('=' if zero else '>')
    elif type(v) is float or ty in tuple('eEfFgG%') and type(v) is int:
        if uni:
            return U(format(v, spec))
        if not ty:
            raise Unsupported('float without format')
        return S(format(v, spec))
    else:
        if not is_str(v):
            x = getattr(type(v), '__format__', None)
            if x is not None and x is not object.__format__ and \
                    type(v) not in rt.BUILTIN_T:
                return x(v, S(spec))
            v = rt.str_(v)
        if ty not in ('', 's'):
            raise ValueError("Unknown format code '%s'" % ty)
        c = list(v.c)
        if prec is not None:
            c = c[:int(prec)]
        align = align or '<'
    fill = ord(fill) if fill else 48 if zero else 32
    k = max(0, width - len(c) - len(neg))
    if align == '<':
        c = neg + c + [fill] * k
    elif align == '=':
        c = neg + [fill] * k + c
    elif align == '^':
        c = [fill] * (k // 2) + neg + c + [fill] * (k - k // 2)
    else:
        c = [fill] * k + neg + c
    return out(tuple(c))


def m_format(s, *a, **kw):
    t = s.need()
    uni = type(s) is PUni
    import string
    auto = 0
    out = []
    for lit, field, spec, conv in string.Formatter().parse(t):
        out.append(type(s)(tuple(map(ord, lit))))
        if field is None:
            continue
        if field == '':
            v = a[auto]
            auto += 1
        else:
            m = _re.match(r'\w+', field)
            rest = field[m.end():]
            k = m.group(0)
            v = a[int(k)] if k.isdigit() else kw[k]
            while rest:
                m = _re.match(r'\.(\w+)|\[(\w+)\]', rest)
                if not m:
                    raise Unsupported('format field')
                rest = rest[m.end():]
                if m.group(1):
                    v = rt.ga(v, m.group(1))
                else:
                    k = m.group(2)
                    v = rt.getitem(v, int(k) if k.isdigit() else S(k))
        if conv == 'r':
            v = rt.repr_(v)
        elif conv == 's':
            v = rt.str_(v)
        if spec and '{' in spec:
            sub = m_format(S(spec), *(a[auto:] if '{}' in spec else a), **kw)
            auto += spec.count('{}')
            spec = sub.need()
        out.append(format_value(v, spec or '', uni))
    return m_join(type(s)(()), out)


def m_expandtabs(s, n=8):
    return type(s)(tuple(map(ord, s.need().expandtabs(n))))


# --------------------------------------------------------------------------
# codecs

CODECS = {}          # registered by the code under test: name -> CodecInfo
SEARCH = []


class CodecInfo(object):
    def __init__(self, encode, decode, streamreader=None, streamwriter=None,
                 incrementalencoder=None, incrementaldecoder=None,
                 name=None):
        self.encode = encode
        self.decode = decode
        self.name = name

    def __getitem__(self, i):
        return (self.encode, self.decode)[i]

    def __iter__(self):
        return iter((self.encode, self.decode, None, None))


def norm(n):
    return n.lower().replace('_', '-')


def lookup(name):
    n = name.need() if not isinstance(name, str) else name
    key = norm(n)
    if key in CODECS:
        return CODECS[key]
    for f in SEARCH:
        r = f(S(n.lower()))
        if r is not None:
            CODECS[key] = r
            return r
    return None


def enc_err():
    raise UnicodeEncodeError('codec', '\xff', 0, 1, 'cannot encode')


def dec_err():
    raise UnicodeDecodeError('codec', b'\xff', 0, 1, 'cannot decode')


def err_mode(errors):
    return errors.need() if errors is not None else 'strict'


def encode(s, enc=None, errors=None):
    s = rt.unbytes(s)
    name = norm(enc.need()) if enc is not None else 'ascii'
    mode = err_mode(errors)
    if name in ('hex', 'hex-codec'):
        return PStr(tuple(rt.fixed_hex(s)))
    ci = lookup(name)
    if ci is not None:
        r = ci.encode(s, S(mode))
        return r[0]
    u = rt.to_uni(s)
    out = []
    if name in ('ascii', 'us-ascii', 'latin-1', 'latin1', 'iso-8859-1',
                'iso8859-1'):
        lim = 128 if 'asc' in name else 256
        for x in u.c:
            if truth(i_cmp('<', x, lim)):
                out.append(_narrow(x, 0, lim - 1))
            elif mode == 'ignore':
                pass
            elif mode == 'replace':
                out.append(63)
            elif mode == 'strict':
                enc_err()
            else:
                raise Unsupported('encode errors=%s' % mode)
        return PStr(tuple(out))
    if name in ('utf-8', 'utf8'):
        for x in u.c:
            out.extend(utf8_enc(x))
        return PStr(tuple(out))
    if name in ('utf-16-be', 'utf-16be', 'utf-16-le', 'utf-16le'):
        be = name.endswith('be')
        for x in u.c:
            for h in utf16_units(x):
                b = [rt.shr(h, 8), rt.and__(h, 255)]
                out.extend(b if be else b[::-1])
        return PStr(tuple(out))
    if u.conc() is not None:
        try:
            b = u.conc().encode(name, mode)
        except LookupError:
            raise LookupError('unknown encoding: %s' % name)
        return PStr(tuple(b))
    raise Unsupported('encode to %s' % name)


def utf8_enc(x):
    if truth(i_cmp('<', x, 0x80)):
        return [_narrow(x, 0, 0x7f)]
    f = lambda k: rt.or__(0x80, rt.and__(rt.shr(x, k), 0x3f))
    if truth(i_cmp('<', x, 0x800)):
        x = _narrow(x, 0x80, 0x7ff)
        return [rt.or__(0xc0, rt.shr(x, 6)), f(0)]
    if truth(i_cmp('<', x, 0x10000)):
        x = _narrow(x, 0x800, 0xffff)
        return [rt.or__(0xe0, rt.shr(x, 12)), f(6), f(0)]
    return [rt.or__(0xf0, rt.shr(x, 18)), f(12), f(6), f(0)]


def utf16_units(x):
    if truth(i_cmp('<', x, 0x10000)):
        return [_narrow(x, 0, 0xffff)]
    y = rt.sub(x, 0x10000)
    return [rt.or__(0xd800, rt.shr(y, 10)), rt.or__(0xdc00,
                                                  rt.and__(y, 0x3ff))]


def decode(s, enc=None, errors=None):
    s = rt.unbytes(s)
    name = norm(enc.need()) if enc is not None else 'ascii'
    mode = err_mode(errors)
    if name in ('hex', 'hex-codec'):
        c = s.c
        if len(c) % 2:
            raise TypeError('Odd-length string')
        out = []
        for i in range(0, len(c), 2):
            a, x = rt.digit_value(c[i], 16)
            b, y = rt.digit_value(c[i + 1], 16)
            if not truth(land([a, b])):
                raise TypeError('Non-hexadecimal digit found')
            out.append(rt.join_digits([x, y], 16))
        return PStr(tuple(out))
    ci = lookup(name)
    if ci is not None:
        return ci.decode(s, S(mode))[0]
    if type(s) is PUni:
        s = rt.encode_ascii(s)
    c = s.c
    if name in ('latin-1', 'latin1', 'iso-8859-1', 'iso8859-1'):
        return PUni(c)
    if name in ('ascii', 'us-ascii'):
        out = []
        for x in c:
            if truth(i_cmp('<', x, 128)):
                out.append(_narrow(x, 0, 127))
            elif mode == 'ignore':
                pass
            elif mode == 'replace':
                out.append(0xfffd)
            else:
                dec_err()
        return PUni(tuple(out))
    if name in ('utf-16-be', 'utf-16be', 'utf-16-le', 'utf-16le'):
        be = name.endswith('be')
        return utf16_dec(c, be, mode)
    if s.conc() is not None:
        try:
            u = bytes(s.c).decode(name, mode)
        except LookupError:
            raise LookupError('unknown encoding: %s' % name)
        return PUni(tuple(map(ord, u)))
    if name in ('utf-8', 'utf8'):
        return utf8_dec(c, mode)
    raise Unsupported('decode from %s' % name)


def utf16_dec(c, be, mode):
    out = []
    if len(c) % 2:
        if mode == 'strict':
            dec_err()
        raise Unsupported('utf-16 with an odd length')
    i = 0
    while i < len(c):
        a, b = (c[i], c[i + 1]) if be else (c[i + 1], c[i])
        h = rt.or__(rt.shl(a, 8), b)
        i += 2
        if truth(land([i_cmp('>=', h, 0xd800), i_cmp('<=', h, 0xdfff)])):
            if mode != 'strict':
                raise Unsupported('utf-16 surrogate errors')
            if not truth(i_cmp('<', h, 0xdc00)) or i >= len(c):
                dec_err()
            a, b = (c[i], c[i + 1]) if be else (c[i + 1], c[i])
            l = rt.or__(rt.shl(a, 8), b)
            if not truth(land([i_cmp('>=', l, 0xdc00),
                               i_cmp('<=', l, 0xdfff)])):
                dec_err()
            i += 2
            out.append(rt.add(0x10000, rt.or__(
                rt.shl(rt.and__(h, 0x3ff), 10), rt.and__(l, 0x3ff))))
        else:
            out.append(h)
    return PUni(tuple(out))


def utf8_dec(c, mode):
    if mode != 'strict':
        raise Unsupported('utf-8 errors=%s' % mode)
    out = []
    i = 0
    n = len(c)

    def cont(j):
        if j >= n:
            dec_err()
        if not truth(land([i_cmp('>=', c[j], 0x80), i_cmp('<', c[j], 0xc0)])):
            dec_err()
        return rt.and__(c[j], 0x3f)
    while i < n:
        x = c[i]
        if truth(i_cmp('<', x, 0x80)):
            out.append(_narrow(x, 0, 127))
            i += 1
        elif truth(land([i_cmp('>=', x, 0xc2), i_cmp('<', x, 0xe0)])):
            out.append(rt.or__(rt.shl(rt.and__(x, 0x1f), 6), cont(i + 1)))
            i += 2
        elif truth(land([i_cmp('>=', x, 0xe0), i_cmp('<', x, 0xf0)])):
            v = rt.or__(rt.shl(rt.and__(x, 0xf), 12),
                        rt.or__(rt.shl(cont(i + 1), 6), cont(i + 2)))
            if not truth(land([i_cmp('>=', v, 0x800),
                               lor([i_cmp('<', v, 0xd800),
                                    i_cmp('>', v, 0xdfff)])])):
                dec_err()
            out.append(v)
            i += 3
        elif truth(land([i_cmp('>=', x, 0xf0), i_cmp('<', x, 0xf5)])):
            raise Unsupported('4-byte utf-8')
        else:
            dec_err()
    return PUni(tuple(out))


def fixed_hex(s):
    out = []
    for x in s.c:
        out.extend(rt.fixed_digits(x, 16, 2))
    return out


rt.fixed_hex = fixed_hex

rt.STR_M.update({
    'strip': m_strip, 'lstrip': m_lstrip, 'rstrip': m_rstrip,
    'startswith': m_startswith, 'endswith': m_endswith, 'find': m_find,
    'rfind': m_rfind, 'index': m_index, 'rindex': m_rindex,
    'count': m_count, 'replace': m_replace, 'split': m_split,
    'rsplit': m_rsplit, 'partition': m_partition,
    'rpartition': m_rpartition, 'splitlines': m_splitlines, 'join': m_join,
    'upper': m_upper, 'lower': m_lower, 'capitalize': m_capitalize,
    'title': m_title, 'swapcase': m_swapcase, 'isdigit': m_isdigit,
    'isalpha': m_isalpha, 'isalnum': m_isalnum, 'isspace': m_isspace,
    'isupper': m_isupper, 'islower': m_islower, 'zfill': m_zfill,
    'ljust': m_ljust, 'rjust': m_rjust, 'center': m_center,
    'translate': m_translate, 'format': m_format,
    'expandtabs': m_expandtabs, 'encode': encode, 'decode': decode,
    '__len__': lambda s: len(s.c), '__getitem__': rt.getitem,
    '__contains__': lambda s, k: rt.in_(k, s), '__add__': rt.add,
    '__mod__': rt.mod, '__eq__': rt.eq,
})


# --------------------------------------------------------------------------
# regular expressions


class Match(object):
    def __init__(self, pat, s, spans):
        self.pat = pat
        self.s = s
        self.spans = spans
        self.re = pat
        self.string = s

    def _g(self, i):
        if is_str(i):
            i = self.pat.names[i.need()]
        i = rt.cint(i)
        if i >= len(self.spans):
            raise IndexError('no such group')
        a = self.spans[i]
        if a is None:
            return None
        return type(self.s)(self.s.c[a[0]:a[1]])

    def group(self, *idx):
        if not idx:
            return self._g(0)
        if len(idx) == 1:
            return self._g(idx[0])
        return tuple(self._g(i) for i in idx)

    def groups(self, default=None):
        return tuple(default if self.spans[i] is None else self._g(i)
                     for i in range(1, len(self.spans)))

    def groupdict(self, default=None):
        d = PDict()
        for k in self.pat.names:
            v = self._g(S(k))
            d.set(S(k), default if v is None else v, rt.eqv)
        return d

    def start(self, i=0):
        return self.spans[rt.cint(i)][0]

    def end(self, i=0):
        return self.spans[rt.cint(i)][1]

    def span(self, i=0):
        return tuple(self.spans[rt.cint(i)])


class Pattern(object):
    """Backtracking matcher that forks on symbolic characters.  The boolean
    question 'does it match' is first asked as one formula."""

    def __init__(self, pat, flags=0):
        self.pattern = pat
        self.flags = flags
        src = pat.need()
        f = _re.ASCII
        if flags & 2:
            f |= _re.IGNORECASE
        if flags & 8:
            f |= _re.MULTILINE
        if flags & 16:
            f |= _re.DOTALL
        if flags & 64:
            f |= _re.VERBOSE
        self.f = f
        self.tree = sre_parse.parse(src, f)
        self.ngroups = self.tree.state.groups
        self.names = dict(self.tree.state.groupdict)
        self.nat = _re.compile(src, f)

    # formula: possible end positions from i -> condition
    def ends(self, items, c, i, cond):
        cur = {i: cond}
        for op, av in items:
            nxt = {}
            for p, cd in cur.items():
                for q, e in self.one(op, av, c, p):
                    e = land([cd, e])
                    if e is False:
                        continue
                    nxt[q] = lor([nxt[q], e]) if q in nxt else e
            cur = nxt
            if not cur:
                break
        return cur

    def one(self, op, av, c, p):
        n = len(c)
        if op is sre_c.LITERAL:
            return [(p + 1, self.lit(c[p], av))] if p < n else []
        if op is sre_c.NOT_LITERAL:
            return [(p + 1, lnot(self.lit(c[p], av)))] if p < n else []
        if op is sre_c.ANY:
            if p >= n:
                return []
            return [(p + 1, True if self.f & _re.DOTALL
                     else i_cmp('!=', c[p], 10))]
        if op is sre_c.IN:
            return [(p + 1, self.cls(c[p], av))] if p < n else []
        if op is sre_c.AT:
            return [(p, self.at(av, c, p))]
        if op in (sre_c.MAX_REPEAT, sre_c.MIN_REPEAT):
            lo, hi, sub = av
            out = {}
            cur = {p: True}
            k = 0
            if lo == 0:
                out[p] = True
            while cur and (hi == sre_c.MAXREPEAT or k < hi) and k <= n + 1:
                nxt = {}
                for q, cd in cur.items():
                    for e, x in self.ends(list(sub), c, q, cd).items():
                        if e == q:
                            if k >= lo:
                                continue
                        nxt[e] = lor([nxt[e], x]) if e in nxt else x
                k += 1
                cur = nxt
                if k >= lo:
                    for e, x in cur.items():
                        out[e] = lor([out[e], x]) if e in out else x
            return list(out.items())
        if op is sre_c.SUBPATTERN:
            return list(self.ends(list(av[-1]), c, p, True).items())
        if op is sre_c.BRANCH:
            out = {}
            for alt in av[1]:
                for e, x in self.ends(list(alt), c, p, True).items():
                    out[e] = lor([out[e], x]) if e in out else x
            return list(out.items())
        raise Unsupported('regex op %s' % op)

    def lit(self, x, code):
        r = i_cmp('==', x, code)
        if self.f & _re.IGNORECASE and chr(code).isalpha():
            r = lor([r, i_cmp('==', x, ord(chr(code).swapcase()))])
        return r

    def cls(self, x, av):
        negate = False
        out = []
        for op, v in av:
            if op is sre_c.NEGATE:
                negate = True
            elif op is sre_c.LITERAL:
                out.append(self.lit(x, v))
            elif op is sre_c.RANGE:
                out.append(land([i_cmp('>=', x, v[0]),
                                 i_cmp('<=', x, v[1])]))
                if self.f & _re.IGNORECASE:
                    for a, b, d in ((97, 122, -32), (65, 90, 32)):
                        l, h = max(a, v[0]), min(b, v[1])
                        if l <= h:
                            out.append(land([i_cmp('>=', x, l + d),
                                             i_cmp('<=', x, h + d)]))
            elif op is sre_c.CATEGORY:
                out.append(self.cat(x, v))
            else:
                raise Unsupported('regex class %s' % op)
        r = lor(out)
        return lnot(r) if negate else r

    def cat(self, x, v):
        d = land([i_cmp('>=', x, 48), i_cmp('<=', x, 57)])
        s = lor([i_cmp('==', x, 32), land([i_cmp('>=', x, 9),
                                          i_cmp('<=', x, 13)])])
        w = lor([d, i_cmp('==', x, 95),
                 land([i_cmp('>=', x, 65), i_cmp('<=', x, 90)]),
                 land([i_cmp('>=', x, 97), i_cmp('<=', x, 122)])])
        n = str(v)
        r = d if 'DIGIT' in n else s if 'SPACE' in n else w
        return lnot(r) if 'NOT' in n else r

    def at(self, v, c, p):
        n = len(c)
        s = str(v)
        if s == 'AT_BEGINNING':
            if p == 0:
                return True
            return i_cmp('==', c[p - 1], 10) if self.f & _re.MULTILINE \
                else False
        if s == 'AT_BEGINNING_STRING':
            return p == 0
        if s == 'AT_END_STRING':
            return p == n
        if s == 'AT_END':
            if p == n:
                return True
            if self.f & _re.MULTILINE:
                return i_cmp('==', c[p], 10)
            return i_cmp('==', c[p], 10) if p == n - 1 else False
        raise Unsupported('regex anchor %s' % s)

    # backtracking for groups; forks
    def bt(self, items, c, p, spans, k):
        if not items:
            return k(p, spans)
        (op, av), rest = items[0], items[1:]
        if op in (sre_c.MAX_REPEAT, sre_c.MIN_REPEAT):
            lo, hi, sub = av
            greedy = op is sre_c.MAX_REPEAT

            def rep(n, p, spans):
                def more():
                    if hi != sre_c.MAXREPEAT and n >= hi:
                        return None
                    return self.bt(list(sub), c, p, spans,
                                   lambda q, s2: rep(n + 1, q, s2)
                                   if (q > p or n < lo) else None)

                def done():
                    if n < lo:
                        return None
                    return self.bt(rest, c, p, spans, k)
                order = (more, done) if greedy else (done, more)
                for f in order:
                    r = f()
                    if r is not None:
                        return r
                return None
            return rep(0, p, spans)
        if op is sre_c.SUBPATTERN:
            g = av[0]

            def after(q, s2):
                s2 = list(s2)
                if g is not None:
                    s2[g] = (p, q)
                return self.bt(rest, c, q, s2, k)
            return self.bt(list(av[-1]), c, p, spans, after)
        if op is sre_c.BRANCH:
            for alt in av[1]:
                r = self.bt(list(alt) + rest, c, p, spans, k)
                if r is not None:
                    return r
            return None
        if op in (sre_c.GROUPREF, sre_c.ASSERT, sre_c.ASSERT_NOT):
            raise Unsupported('regex op %s' % op)
        for q, cd in self.one(op, av, c, p):
            if truth(cd):
                return self.bt(rest, c, q, spans, k)
        return None

    def native(self, s, how, pos=0):
        m = getattr(self.nat, how)(s.conc(), pos)
        if m is None:
            return None
        return Match(self, s, [None if m.start(i) < 0 else m.span(i)
                               for i in range(self.ngroups)])

    def _at(self, s, i, full=False):
        """Match starting at i or None; forks."""
        c = s.c
        es = self.ends(list(self.tree), c, i, True)
        ok = lor([x for e, x in es.items() if not full or e == len(c)])
        if not truth(ok):
            return None
        spans = [None] * self.ngroups

        def fin(q, sp):
            sp = list(sp)
            sp[0] = (i, q)
            return sp
        if self.ngroups == 1 and len(es) == 1:
            return Match(self, s, [(i, list(es)[0])])

        class LazyMatch(Match):
            def __init__(m):
                Match.__init__(m, self, s, None)

            def __getattribute__(m, n):
                if n == 'spans' and object.__getattribute__(m, n) is None:
                    m.spans = self.bt(list(self.tree), c, i, spans, fin)
                return object.__getattribute__(m, n)
        return LazyMatch()

    def match(self, s, pos=0, endpos=None):
        need_str(s)
        if s.conc() is not None:
            return self.native(s, 'match', pos)
        return self._at(s, pos)

    def search(self, s, pos=0, endpos=None):
        need_str(s)
        if s.conc() is not None:
            return self.native(s, 'search', pos)
        for i in range(pos, len(s.c) + 1):
            m = self._at(s, i)
            if m is not None:
                return m
        return None

    def finditer(self, s):
        i = 0
        while i <= len(s.c):
            m = self.search(s, i)
            if m is None:
                return
            yield m
            a, b = m.spans[0]
            i = b if b > a else b + 1

    def findall(self, s):
        out = []
        for m in self.finditer(s):
            g = m.groups()
            out.append(m.group() if not g else g[0] if len(g) == 1 else g)
        return out

    def sub(self, repl, s, count=0):
        out = []
        last = 0
        n = 0
        for m in self.finditer(s):
            if count and n >= count:
                break
            a, b = m.spans[0]
            out.extend(s.c[last:a])
            r = repl(m) if callable(repl) else repl
            if not callable(repl) and 92 in [x for x in r.c
                                             if type(x) is int]:
                raise Unsupported('regex template')
            out.extend(r.c)
            last = b
            n += 1
        out.extend(s.c[last:])
        return type(s)(tuple(out))

    def split(self, s, maxsplit=0):
        out = []
        last = 0
        n = 0
        for m in self.finditer(s):
            if maxsplit and n >= maxsplit:
                break
            a, b = m.spans[0]
            if a == b:
                continue
            out.append(type(s)(s.c[last:a]))
            out.extend(m.groups())
            last = b
            n += 1
        out.append(type(s)(s.c[last:]))
        return out


_cache = {}


def compile_(pat, flags=0):
    if isinstance(pat, Pattern):
        return pat
    k = (pat.need(), flags)
    if k not in _cache:
        _cache[k] = Pattern(pat, flags)
    return _cache[k]
