"""Runtime values: Python 2 strings, dicts, arrays with symbolic contents."""
import z3
from . import core
from .core import (SymInt, SymBool, SymRat, Unsupported, i_cmp, as_z3, and_,
                   or_, not_, i_ite, i_table)


def C():
    return core.CTX


# --------------------------------------------------------------------------
# strings


class PBase(object):
    """basestring"""
    __slots__ = ('_c', '_s', '_lazy', 'dom')

    def __init__(self, c, s=None):
        self._c = c if type(c) is tuple else tuple(c)
        self._s = s
        self._lazy = None

    @property
    def c(self):
        if self._lazy is not None:
            f = self._lazy
            self._c = tuple(f())
            self._lazy = None
        return self._c

    @classmethod
    def lazy(cls, f):
        o = cls(())
        o._lazy = f
        return o

    def conc(self):
        """Native text (code points as characters) or None if symbolic."""
        if self._s is None:
            c = self.c
            for x in c:
                if type(x) is not int:
                    return None
            self._s = ''.join(map(chr, c))
        return self._s

    def need(self):
        """Concrete text; forks over every value of every symbolic char."""
        s = self.conc()
        if s is None:
            ctx = C()
            s = ''.join(chr(ctx.concretize_int(x)) for x in self.c)
        return s

    def __iter__(self):
        cls = PUni if type(self) is PUni else PStr
        return iter([one(cls, x) for x in self.c])

    def __len__(self):
        return len(self.c)

    def __bool__(self):
        return len(self.c) > 0

    def __hash__(self):
        raise Unsupported('native hash of a string')

    def __eq__(self, other):
        raise Unsupported('native eq of a string')

    def __repr__(self):
        if self._lazy is not None:
            return '<lazy %s>' % type(self).__name__
        s = self.conc()
        if s is None:
            return '<sym %s len %d>' % (type(self).__name__, len(self._c))
        return '%s(%r)' % (type(self).__name__, s)

    def __str__(self):
        return repr(self)


class PStr(PBase):
    __slots__ = ()


class PUni(PBase):
    __slots__ = ()


ONE_S = [PStr((i,), chr(i)) for i in range(256)]


def one(cls, x):
    if cls is PStr and type(x) is int:
        return ONE_S[x]
    return cls((x,))


def S(s):
    """PStr from native text."""
    return PStr(tuple(map(ord, s)), s)


def U(s):
    return PUni(tuple(map(ord, s)), s)


def is_str(x):
    t = type(x)
    return t is PStr or t is PUni


def str_eq(a, b):
    ca, cb = a.c, b.c
    if len(ca) != len(cb):
        return False
    mixed = type(a) is not type(b)
    if not mixed:
        sa, sb = a.conc(), b.conc()
        if sa is not None and sb is not None:
            return sa == sb
    out = []
    for x, y in zip(ca, cb):
        if type(x) is int and type(y) is int:
            if x != y or (mixed and x > 127):
                return False
            continue
        r = i_cmp('==', x, y)
        if r is False:
            return False
        if r is not True:
            out.append(r)
        if mixed:
            p = x if type(a) is PStr else y
            r = i_cmp('<', p, 128)
            if r is False:
                return False
            if r is not True:
                out.append(r)
    return and_(out)


def char_lt(a, b, strict):
    """Lexicographic a < b (or <=)."""
    ca, cb = a.c, b.c
    n = min(len(ca), len(cb))
    if len(ca) < len(cb):
        r = True
    elif len(ca) > len(cb):
        r = False
    else:
        r = not strict
    for i in reversed(range(n)):
        lt = i_cmp('<', ca[i], cb[i])
        eq = i_cmp('==', ca[i], cb[i])
        r = or_([lt, and_([eq, r])])
    return r


# --------------------------------------------------------------------------
# dictionaries


def canon_key(k):
    """Hashable canonical form of a concrete key, None if symbolic."""
    t = type(k)
    if t is int or t is bool:
        return k
    if t is PStr or t is PUni:
        s = k.conc()
        if s is None:
            return None
        if t is PStr:
            for ch in s:
                if ch > '\x7f':
                    return ('8', s)
        return ('t', s)
    if t is tuple:
        out = []
        for x in k:
            c = canon_key(x)
            if c is None:
                return None
            out.append(c)
        return ('tuple', tuple(out))
    if t is SymInt or t is SymBool or t is SymRat:
        return None
    if t is float:
        return int(k) if k == int(k) else k
    if t is type(None):
        return ('None',)
    if t is list or t is PDict or t is PArray or t is PSet or t is PBytes:
        raise TypeError('unhashable type')
    h = getattr(t, '__canon__', None)
    if h is not None:
        return h(k)
    if t.__hash__ is object.__hash__ or t.__hash__ is type.__hash__:
        return ('id', id(k))
    try:
        return ('obj', t, hash(k), id(k))
    except TypeError:
        raise


class PDict(object):
    """dict with symbolic keys/values.  Insertion ordered."""
    __slots__ = ('d', 'sym', '__dict__', '__weakref__')

    def __init__(self):
        self.d = {}        # canonical key -> [key, value]
        self.sym = None    # list of [key, value] once a symbolic key is used

    # entries in order
    def entries(self):
        if self.sym is not None:
            return self.sym
        return list(self.d.values())

    def __iter__(self):
        return iter([e[0] for e in self.entries()])

    def __len__(self):
        return len(self.sym) if self.sym is not None else len(self.d)

    def __bool__(self):
        return len(self) > 0

    __hash__ = None

    def __eq__(self, other):
        raise Unsupported('native eq of a dict')

    def _to_sym(self):
        if self.sym is None:
            self.sym = list(self.d.values())
            self.d = None

    def find(self, k, rt_eq):
        """Entry for key k or None; forks when symbolic."""
        ck = canon_key(k)
        if self.sym is None:
            if ck is not None:
                return self.d.get(ck)
            ents = list(self.d.values())
        else:
            ents = self.sym
        ctx = C()
        cand = []
        for e in ents:
            r = rt_eq(e[0], k)
            if r is False:
                continue
            if r is True:
                if not cand:
                    return e
                cand.append((e, True))
                break
            cand.append((e, r))
        if not cand:
            return None
        for e, r in cand:
            if ctx.truth(r):
                return e
        return None

    def member(self, k, rt_eq):
        ck = canon_key(k)
        if self.sym is None:
            if ck is not None:
                return ck in self.d
            r = self.fast_member(k)
            if r is not None:
                return r
        out = []
        for e in self.entries():
            r = rt_eq(e[0], k)
            if r is True:
                return True
            if r is not False:
                out.append(r)
        return or_(out)

    def scalar(self, k):
        """(kind, SymInt) when k is a symbolic int or a one-char string."""
        t = type(k)
        if t is SymInt:
            return k, None
        if (t is PUni or t is PStr) and len(k.c) == 1:
            return k.c[0], t
        return None, None

    def scalar_keys(self, k):
        """[(int, entry)] of the keys comparable with scalar key k."""
        x, t = self.scalar(k)
        if x is None:
            return None, None
        out = []
        if t is None:
            for ck, e in self.d.items():
                if type(ck) is int or type(ck) is bool:
                    out.append((int(ck), e))
            return x, out
        for ck, e in self.d.items():
            if type(ck) is tuple and ck[0] in ('t', '8') and len(ck[1]) == 1:
                o = ord(ck[1])
                if o > 127:
                    kt = type(e[0])
                    if kt is not t:
                        continue
                out.append((o, e))
        # for a symbolic str char against unicode ASCII keys and vice versa
        # equality of code points is equality of keys
        return x, out

    def fast_member(self, k):
        x, ks = self.scalar_keys(k)
        if x is None:
            return None
        return in_ranges(x, [a for a, _ in ks])

    def lookup(self, k, rt_eq):
        """(found, value): forks on membership, merges values when it can."""
        ck = canon_key(k)
        if self.sym is None and ck is not None:
            e = self.d.get(ck)
            return (True, e[1]) if e is not None else (False, None)
        ctx = C()
        if self.sym is None:
            x, ks = self.scalar_keys(k)
            if x is not None:
                if not ctx.truth(in_ranges(x, [a for a, _ in ks])):
                    return False, None
                lo, hi = core.rng(x)
                pairs = [(a, e[1]) for a, e in ks if lo <= a <= hi]
                return True, merge_pairs(
                    [(None, a, v) for a, v in pairs], x)
        pairs = []
        conds = []
        for e in self.entries():
            r = rt_eq(e[0], k)
            if r is True:
                # later entries are distinct keys; this one matches unless an
                # earlier symbolic one did
                pairs.append((True, None, e[1]))
                conds.append(True)
                break
            if r is not False:
                pairs.append((r, None, e[1]))
                conds.append(r)
        if not ctx.truth(or_(conds)):
            return False, None
        return True, merge_pairs(pairs, None)

    def set(self, k, v, rt_eq):
        ck = canon_key(k)
        if self.sym is None and ck is not None:
            e = self.d.get(ck)
            if e is not None:
                e[1] = v
            else:
                self.d[ck] = [k, v]
            return
        e = self.find(k, rt_eq)
        if e is not None:
            e[1] = v
            return
        self._to_sym()
        self.sym.append([k, v])

    def delete(self, k, rt_eq):
        ck = canon_key(k)
        if self.sym is None and ck is not None:
            if ck in self.d:
                return self.d.pop(ck)[1]
            return NOTFOUND
        e = self.find(k, rt_eq)
        if e is None:
            return NOTFOUND
        self._to_sym()
        self.sym.remove_identity(e) if False else None
        self.sym = [x for x in self.sym if x is not e]
        return e[1]


class _NF(object):
    pass


NOTFOUND = _NF()


def in_ranges(x, vals):
    if not vals:
        return False
    lo, hi = core.rng(x)
    vals = sorted(set(v for v in vals if lo <= v <= hi))
    if not vals:
        return False
    if type(x) is int:
        return x in vals
    ck = (x.e.get_id(), x.lo, x.hi, tuple(vals))
    r = _RNG.get(ck)
    if r is None:
        if len(_RNG) > 20000:
            _RNG.clear()
        r = _RNG[ck] = (_in_ranges(x, vals), x)
    return r[0]


_RNG = {}


def _in_ranges(x, vals):
    out = []
    a = b = vals[0]
    rs = []
    for v in vals[1:]:
        if v == b + 1:
            b = v
        else:
            rs.append((a, b))
            a = b = v
    rs.append((a, b))
    for a, b in rs:
        if a == b:
            out.append(i_cmp('==', x, a))
        else:
            out.append(and_([i_cmp('>=', x, a), i_cmp('<=', x, b)]))
    return or_(out)


def merge_pairs(pairs, key):
    """pairs: [(cond, intkey or None, value)], exactly one cond holds; with a
    key the conditions are key == intkey and left out.
    Merge into one value where the kinds allow, else fork."""
    ctx = C()
    if len(pairs) == 1:
        return pairs[0][2]
    vs = [p[2] for p in pairs]
    v0 = vs[0]
    same = True
    for v in vs[1:]:
        if not same_value(v0, v):
            same = False
            break
    if same:
        return v0
    t0 = type(v0)
    if all(type(v) in (int, SymInt) for v in vs):
        return ite_ints(pairs, key, vs)
    if t0 in (PStr, PUni) and all(type(v) is t0 for v in vs):
        n = len(v0.c)
        if n <= 4 and all(len(v.c) == n for v in vs):
            return t0(tuple(ite_ints(pairs, key, [v.c[i] for v in vs])
                            for i in range(n)))
    # fork per distinct value
    groups = []
    for cond, a, v in pairs:
        for g in groups:
            if same_value(g[0], v):
                g[1].append(cond)
                break
        else:
            groups.append((v, [cond]))
    if key is not None:
        conds = []
        for v, cs in groups:
            ks = [a for c, a, w in pairs if same_value(w, v)]
            conds.append(as_z3(in_ranges(key, ks)))
    else:
        # ordered: first match wins
        return fork_ordered(pairs)
    i = ctx.choose(conds)
    return groups[i][0]


def fork_ordered(pairs):
    ctx = C()
    for cond, _, v in pairs[:-1]:
        if ctx.truth(cond):
            return v
    return pairs[-1][2]


def same_value(a, b):
    if a is b:
        return True
    if type(a) is not type(b):
        return False
    t = type(a)
    if t is int or t is bool:
        return a == b
    if t in (PStr, PUni):
        x, y = a.conc(), b.conc()
        return x is not None and x == y
    if t is tuple:
        return len(a) == len(b) and all(same_value(x, y)
                                        for x, y in zip(a, b))
    return False


def ite_ints(pairs, key, vs):
    if key is not None:
        return i_table(key, [(p[1], v) for p, v in zip(pairs, vs)])
    e = vs[-1]
    for p, v in reversed(list(zip(pairs[:-1], vs[:-1]))):
        e = i_ite(as_z3(p[0]), v, e)
    return e


class PSet(object):
    __slots__ = ('d', 'frozen')

    def __init__(self, frozen=False):
        self.d = PDict()
        self.frozen = frozen

    def __iter__(self):
        return iter(self.d)

    def __len__(self):
        return len(self.d)

    def __bool__(self):
        return len(self.d) > 0

    __hash__ = None

    def __eq__(self, other):
        raise Unsupported('native eq of a set')


# --------------------------------------------------------------------------
# array.array


class PArray(object):
    __slots__ = ('typecode', 'a')

    def __init__(self, typecode, a=None):
        self.typecode = typecode
        self.a = a if a is not None else []

    def __iter__(self):
        # live iteration, as array.array
        i = 0
        while i < len(self.a):
            yield self.a[i]
            i += 1

    def __len__(self):
        return len(self.a)

    def __bool__(self):
        return len(self.a) > 0

    __hash__ = None

    def __eq__(self, other):
        raise Unsupported('native eq of an array')


class PBytes(PArray):
    """bytearray"""
    __slots__ = ()

    def __init__(self, a=None):
        PArray.__init__(self, 'B', a)

    @property
    def c(self):
        return tuple(self.a)

    def str(self):
        return PStr(tuple(self.a))

    __hash__ = None

    def __eq__(self, other):
        raise Unsupported('native eq of a bytearray')


class SymRange(object):
    """xrange with a symbolic stop: the loop condition forks lazily."""

    def __init__(self, lo, hi):
        self.i = lo
        self.hi = hi

    def __iter__(self):
        return self

    def __next__(self):
        ctx = C()
        ctx.step()
        if ctx.truth(i_cmp('<', self.i, self.hi)):
            v = self.i
            self.i = core.i_add(self.i, 1)
            return v
        raise StopIteration
