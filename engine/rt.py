"""Runtime: Python 2 semantics of every operation on possibly symbolic
values."""
import types
import builtins as _b
import functools
import math as _math
import z3
from . import core
from .core import (SymInt, SymBool, SymRat, Unsupported, i_cmp, as_z3, toint,
                   i_ite, rng)
from .vals import (PStr, PUni, PBase, PDict, PSet, PArray, PBytes, SymRange,
                   S, U,
                   one, is_str, str_eq, char_lt, canon_key, NOTFOUND,
                   in_ranges, ONE_S)

land = core.and_
lor = core.or_
lnot = core.not_

NUM = frozenset((int, bool, SymInt, SymBool, float, SymRat))
INTS = frozenset((int, bool, SymInt, SymBool))


def C():
    return core.CTX


def enter(fid):
    c = core.CTX
    if c is not None:
        c.functions.add(fid)
        c.step()


def step():
    c = core.CTX
    if c is not None:
        c.step()


def stepv(v):
    c = core.CTX
    if c is not None:
        c.step()
    return v


def unsupported(what):
    raise Unsupported('construct: %s' % what)


def print_(*a):
    return None


# --------------------------------------------------------------------------
# truth and boolean operators


def truthv(x):
    """Truth value as bool or SymBool (no fork)."""
    t = type(x)
    if t is bool or t is SymBool:
        return x
    if t is int or t is float:
        return x != 0
    if t is SymInt:
        return i_cmp('!=', x, 0)
    if t is SymRat:
        return i_cmp('!=', x.num, 0) if type(x.num) is SymInt else x.num != 0
    if x is None:
        return False
    if is_str(x):
        return len(x.c) > 0
    if t in (list, tuple, PDict, PSet, PArray, PBytes):
        return len(x) > 0
    m = getattr(t, '__nonzero__', None)
    if m is not None:
        return truthv(m(x))
    m = getattr(t, '__bool__', None)
    if m is not None:
        return m(x)
    m = getattr(t, '__len__', None)
    if m is not None:
        return truthv(ne(m(x), 0))
    return True


def truth(x):
    t = type(x)
    if t is bool:
        return x
    v = truthv(x)
    if type(v) is SymBool:
        return C().truth(v)
    return v


def not_(x):
    return lnot(truthv(x))


def and_(*ts):
    v = None
    for i, t in enumerate(ts):
        v = t()
        if i < len(ts) - 1 and not truth(v):
            return False if type(v) is SymBool else v
    return v


def or_(*ts):
    v = None
    for i, t in enumerate(ts):
        v = t()
        if i < len(ts) - 1 and truth(v):
            return True if type(v) is SymBool else v
    return v


def chain(a, *rest):
    out = []
    for i in range(0, len(rest), 2):
        b = rest[i + 1]()
        r = OPS[rest[i]](a, b)
        if r is False:
            return False
        if i + 2 < len(rest) and type(r) is SymBool:
            pass
        out.append(truthv(r))
        a = b
    return land(out)


# --------------------------------------------------------------------------
# numbers


def as_rat(x):
    """(num, den) of a number."""
    t = type(x)
    if t is SymRat:
        return x.num, x.den
    if t is float:
        if x != x or x in (float('inf'), float('-inf')):
            raise Unsupported('non-finite float')
        n, d = x.as_integer_ratio()
        return n, d
    return toint(x), 1


def mkrat(n, d):
    if type(n) is int:
        return n / d
    g = d
    return SymRat(n, d)


def isf(t):
    return t is float or t is SymRat


def typeerr(op, a, b):
    raise TypeError('unsupported operand type(s) for %s: %s and %s'
                    % (op, tname(a), tname(b)))


def tname(x):
    t = type_of(x)
    return t.__name__


def user_bin(op, rop, a, b):
    m = getattr(type(a), op, None)
    if m is not None and type(a) not in BUILTIN_T:
        r = m(a, b)
        if r is not NotImplemented:
            return r
    m = getattr(type(b), rop, None)
    if m is not None and type(b) not in BUILTIN_T:
        r = m(b, a)
        if r is not NotImplemented:
            return r
    return NotImplemented


def add(a, b):
    ta, tb = type(a), type(b)
    if ta is int and tb is int:
        return a + b
    if ta in NUM and tb in NUM:
        if isf(ta) or isf(tb):
            (n1, d1), (n2, d2) = as_rat(a), as_rat(b)
            if ta in (float, int, bool) and tb in (float, int, bool):
                return a + b
            return mkrat(core.i_add(core.i_mul(n1, d2), core.i_mul(n2, d1)),
                         d1 * d2)
        return core.i_add(toint(a), toint(b))
    if ta is PStr and tb is PStr:
        if a._lazy is not None or b._lazy is not None:
            return PStr.lazy(lambda: a.c + b.c)
        if a._s is not None and b._s is not None:
            return PStr(a._c + b._c, a._s + b._s)
        return PStr(a._c + b._c)
    if is_str(a) and is_str(b):
        return PUni(to_uni(a).c + to_uni(b).c)
    if ta is list and tb is list:
        return a + b
    if ta is tuple and tb is tuple:
        return a + b
    if ta is PArray and tb is PArray:
        return PArray(a.typecode, a.a + b.a)
    if ta is PBytes:
        if tb is PStr:
            return PBytes(a.a + list(b.c))
        if tb is PBytes or (tb is PArray and b.typecode in 'Bb'):
            return PBytes(a.a + b.a)
        raise TypeError("can't concat %s to bytearray" % tname(b))
    if tb is PBytes:
        if ta is PStr or ta is PUni:
            return add(a, b.str())
        if ta is list:
            return a + b.a
        raise TypeError('cannot concatenate')
    r = user_bin('__add__', '__radd__', a, b)
    if r is NotImplemented:
        typeerr('+', a, b)
    return r


def to_uni(s):
    """Implicit ASCII decoding of a str."""
    if type(s) is PUni:
        return s
    for i, x in enumerate(s.c):
        if type(x) is int:
            if x > 127:
                raise UnicodeDecodeError('ascii', b'\xff', 0, 1, 'ordinal')
        elif rng(x)[1] > 127:
            if not C().truth(i_cmp('<', x, 128)):
                raise UnicodeDecodeError('ascii', b'\xff', 0, 1, 'ordinal')
    return PUni(s.c)


def sub(a, b):
    ta, tb = type(a), type(b)
    if ta is int and tb is int:
        return a - b
    if ta in NUM and tb in NUM:
        if isf(ta) or isf(tb):
            if ta in (float, int, bool) and tb in (float, int, bool):
                return a - b
            (n1, d1), (n2, d2) = as_rat(a), as_rat(b)
            return mkrat(core.i_sub(core.i_mul(n1, d2), core.i_mul(n2, d1)),
                         d1 * d2)
        return core.i_sub(toint(a), toint(b))
    if ta is PSet and tb is PSet:
        return set_op(a, b, lambda k, o: not truth(in_(k, o)))
    r = user_bin('__sub__', '__rsub__', a, b)
    if r is NotImplemented:
        typeerr('-', a, b)
    return r


def mul(a, b):
    ta, tb = type(a), type(b)
    if ta is int and tb is int:
        return a * b
    if ta in NUM and tb in NUM:
        if isf(ta) or isf(tb):
            if ta in (float, int, bool) and tb in (float, int, bool):
                return a * b
            (n1, d1), (n2, d2) = as_rat(a), as_rat(b)
            return mkrat(core.i_mul(n1, n2), d1 * d2)
        return core.i_mul(toint(a), toint(b))
    if tb in (PStr, PUni, list, tuple, PArray, PBytes) and ta in INTS:
        a, b = b, a
        ta, tb = tb, ta
    if ta in (PStr, PUni, list, tuple, PArray, PBytes) and tb in INTS:
        n = C().concretize_int(toint(b)) if type(b) in (SymInt, SymBool) \
            else int(b)
        if ta in (PStr, PUni):
            return ta(a.c * n)
        if ta is PArray:
            return PArray(a.typecode, a.a * n)
        if ta is PBytes:
            return PBytes(a.a * n)
        return a * n
    r = user_bin('__mul__', '__rmul__', a, b)
    if r is NotImplemented:
        typeerr('*', a, b)
    return r


def _zerocheck(b):
    if type(b) is SymInt:
        if C().truth(i_cmp('==', b, 0)):
            raise ZeroDivisionError('integer division or modulo by zero')
        if b.lo == 0:
            return SymInt(b.e, 1, b.hi) if b.hi > 1 else 1
        if b.lo < 0:
            raise Unsupported('signed symbolic divisor')
    elif b == 0:
        raise ZeroDivisionError('integer division or modulo by zero')
    return b


def div(a, b):
    ta, tb = type(a), type(b)
    if ta is int and tb is int:
        return a // b
    if ta in NUM and tb in NUM:
        if isf(ta) or isf(tb):
            return truediv(a, b)
        return floordiv(a, b)
    r = user_bin('__div__', '__rdiv__', a, b)
    if r is NotImplemented:
        typeerr('/', a, b)
    return r


def truediv(a, b):
    ta, tb = type(a), type(b)
    if ta in (float, int, bool) and tb in (float, int, bool):
        return a / b
    (n1, d1), (n2, d2) = as_rat(a), as_rat(b)
    if type(n2) is not int:
        raise Unsupported('float division by a symbolic value')
    if n2 == 0:
        raise ZeroDivisionError('float division by zero')
    if n2 < 0:
        n1, n2 = core.i_neg(n1), -n2
    return mkrat(core.i_mul(n1, d2), d1 * n2)


def floordiv(a, b):
    ta, tb = type(a), type(b)
    if ta is int and tb is int:
        return a // b
    if ta in INTS and tb in INTS:
        b = _zerocheck(toint(b))
        a = toint(a)
        if type(a) is int and type(b) is int:
            return a // b
        return core.i_floordiv(a, b)
    if ta in NUM and tb in NUM:
        return _rfloor(truediv(a, b))
    r = user_bin('__floordiv__', '__rfloordiv__', a, b)
    if r is NotImplemented:
        typeerr('//', a, b)
    return r


def _rfloor(x):
    """floor of a float, as a float."""
    if type(x) is float:
        return _math.floor(x) * 1.0
    n, d = as_rat(x)
    return SymRat(core.i_floordiv(n, d), 1) if type(n) is not int \
        else float(n // d)


def mod(a, b):
    ta = type(a)
    if ta is PStr or ta is PUni:
        return fmt(a, b)
    tb = type(b)
    if ta is int and tb is int:
        return a % b
    if ta in INTS and tb in INTS:
        b = _zerocheck(toint(b))
        a = toint(a)
        if type(a) is int and type(b) is int:
            return a % b
        return core.i_mod(a, b)
    if ta in NUM and tb in NUM:
        if ta in (float, int, bool) and tb in (float, int, bool):
            return a % b
        raise Unsupported('float modulo')
    r = user_bin('__mod__', '__rmod__', a, b)
    if r is NotImplemented:
        typeerr('%', a, b)
    return r


def pow_(a, b, m=None):
    if m is not None:
        return mod(pow_(a, b), m)
    ta, tb = type(a), type(b)
    if ta in (int, float, bool) and tb in (int, float, bool):
        return a ** b
    if ta in INTS and tb in INTS:
        a, b = toint(a), toint(b)
        if type(a) is int and a == 2:
            return shl(1, b)
        if type(b) is SymInt:
            b = C().concretize_int(b)
        if b < 0:
            raise Unsupported('negative power')
        r = 1
        for _ in range(b):
            r = mul(r, a)
        return r
    typeerr('**', a, b)


def _shift(a, b, f):
    a, b = toint(a), toint(b)
    if type(b) is SymInt:
        if b.lo < 0:
            if C().truth(i_cmp('<', b, 0)):
                raise ValueError('negative shift count')
        lo = max(0, b.lo)
        if b.hi - lo <= 64:
            r = f(a, b.hi)
            for k in range(b.hi - 1, lo - 1, -1):
                r = i_ite(as_z3(i_cmp('==', b, k)), f(a, k), r)
            return r
        b = C().concretize_int(b)
    if b < 0:
        raise ValueError('negative shift count')
    return f(a, b)


def _shl1(a, k):
    if type(a) is int:
        return a << k
    return core.i_shl(a, k)


def _shr1(a, k):
    if type(a) is int:
        return a >> k
    return core.i_shr(a, k)


def shl(a, b):
    if type(a) is int and type(b) is int:
        if b > 1000000:
            raise Unsupported('huge shift')
        return a << b
    if type(a) in INTS and type(b) in INTS:
        return _shift(a, b, _shl1)
    r = user_bin('__lshift__', '__rlshift__', a, b)
    if r is NotImplemented:
        typeerr('<<', a, b)
    return r


def shr(a, b):
    if type(a) is int and type(b) is int:
        return a >> b
    if type(a) in INTS and type(b) in INTS:
        return _shift(a, b, _shr1)
    r = user_bin('__rshift__', '__rrshift__', a, b)
    if r is NotImplemented:
        typeerr('>>', a, b)
    return r


def and__(a, b):
    ta, tb = type(a), type(b)
    if ta is int and tb is int:
        return a & b
    if ta in (bool, SymBool) and tb in (bool, SymBool):
        return land([a, b])
    if ta in INTS and tb in INTS:
        return core.i_and(toint(a), toint(b))
    if ta is PSet and tb is PSet:
        return set_op(a, b, lambda k, o: truth(in_(k, o)))
    r = user_bin('__and__', '__rand__', a, b)
    if r is NotImplemented:
        typeerr('&', a, b)
    return r


def or__(a, b):
    ta, tb = type(a), type(b)
    if ta is int and tb is int:
        return a | b
    if ta in (bool, SymBool) and tb in (bool, SymBool):
        return lor([a, b])
    if ta in INTS and tb in INTS:
        return core.i_or(toint(a), toint(b))
    if ta is PSet and tb is PSet:
        r = PSet()
        for k in list(a) + list(b):
            r.d.set(k, True, eqv)
        return r
    r = user_bin('__or__', '__ror__', a, b)
    if r is NotImplemented:
        typeerr('|', a, b)
    return r


def set_op(a, b, f):
    r = PSet()
    for k in a:
        if f(k, b):
            r.d.set(k, True, eqv)
    return r


def xor(a, b):
    ta, tb = type(a), type(b)
    if ta is int and tb is int:
        return a ^ b
    if ta in INTS and tb in INTS:
        if ta in (bool, SymBool) and tb in (bool, SymBool):
            x, y = as_z3(a), as_z3(b)
            return SymBool(z3.Xor(x, y))
        return core.i_xor(toint(a), toint(b))
    typeerr('^', a, b)


def neg(a):
    t = type(a)
    if t is int or t is float or t is bool:
        return -a
    if t in INTS:
        return core.i_neg(toint(a))
    if t is SymRat:
        return SymRat(core.i_neg(a.num), a.den)
    m = getattr(t, '__neg__', None)
    if m is not None and t not in BUILTIN_T:
        return m(a)
    raise TypeError('bad operand type for unary -')


def pos(a):
    if type(a) in NUM:
        return toint(a) if type(a) in INTS else a
    raise TypeError('bad operand type for unary +')


def inv(a):
    t = type(a)
    if t in INTS:
        return core.i_sub(-1, toint(a)) if type(toint(a)) is SymInt \
            else ~toint(a)
    raise TypeError('bad operand type for unary ~')


def aug(op, a, b):
    ta = type(a)
    if ta is list:
        if op == 'iadd':
            a.extend(iter(b))
            return a
        if op == 'imul':
            a[:] = mul(a, b)
            return a
    if ta is PArray and op == 'iadd':
        if type(b) is not PArray:
            raise TypeError('can only extend with array')
        a.a.extend(b.a)
        return a
    if ta is PBytes and op == 'iadd':
        a.a.extend(add(a, b).a[len(a.a):])
        return a
    if ta is PBytes and op == 'imul':
        a.a[:] = mul(a, b).a
        return a
    if ta is PSet and op in ('ior__', 'iand__', 'isub'):
        r = OPS[op[1:]](a, b)
        a.d = r.d
        return a
    if ta not in BUILTIN_T:
        m = getattr(ta, {'iadd': '__iadd__', 'isub': '__isub__',
                         'imul': '__imul__', 'ior__': '__ior__',
                         'iand__': '__iand__'}.get(op, '__none__'), None)
        if m is not None:
            r = m(a, b)
            if r is not NotImplemented:
                return r
    return OPS[op[1:]](a, b)


# --------------------------------------------------------------------------
# comparison


def eqv(a, b):
    """a == b as bool or SymBool."""
    ta, tb = type(a), type(b)
    if ta in NUM and tb in NUM:
        if ta is int and tb is int:
            return a == b
        if isf(ta) or isf(tb):
            if ta in (float, int, bool) and tb in (float, int, bool):
                return a == b
            (n1, d1), (n2, d2) = as_rat(a), as_rat(b)
            return i_cmp('==', core.i_mul(n1, d2), core.i_mul(n2, d1))
        if ta in (bool, SymBool) and tb in (bool, SymBool):
            if ta is bool and tb is bool:
                return a == b
            return SymBool(as_z3(a) == as_z3(b))
        return i_cmp('==', toint(a), toint(b))
    if is_str(a):
        if is_str(b):
            return str_eq(a, b)
        if tb is PBytes:
            return ta is PStr and str_eq(a, b.str())
        if tb in BUILTIN_T or not hasattr(tb, '__eq__'):
            return False
    if a is b and not (ta is list or ta is tuple):
        return True
    if ta is PBytes or tb is PBytes:
        if ta in (PStr, PBytes) and tb in (PStr, PBytes):
            return str_eq(unbytes(a), unbytes(b))
        if ta in BUILTIN_T and tb in BUILTIN_T:
            return False
        return _usereq(a, b)
    if a is None or b is None:
        return _usereq(a, b)
    if (ta is list and tb is list) or (ta is tuple and tb is tuple):
        if len(a) != len(b):
            return False
        return land([eqv(x, y) for x, y in zip(a, b)])
    if ta is PArray and tb is PArray:
        if len(a.a) != len(b.a):
            return False
        return land([eqv(x, y) for x, y in zip(a.a, b.a)])
    if ta is PDict and tb is PDict:
        if len(a) != len(b):
            return False
        out = []
        for k, v in a.entries():
            f, w = b.lookup(k, eqv)
            if not f:
                return False
            out.append(eqv(v, w))
        return land(out)
    if ta is PSet and tb is PSet:
        if len(a) != len(b):
            return False
        return land([b.d.member(k, eqv) for k in a])
    if isinstance(a, TypeModel) or isinstance(b, TypeModel):
        return a is b
    if ta in BUILTIN_T and tb in BUILTIN_T:
        return False
    return _usereq(a, b)


def _usereq(a, b):
    for x, y in ((a, b), (b, a)):
        t = type(x)
        if t in BUILTIN_T or x is None:
            continue
        m = t.__dict__.get('__eq__') or getattr(t, '__eq__', None)
        if m is not None and m is not object.__eq__:
            r = m(x, y)
            if r is not NotImplemented:
                return truthv(r)
        m = getattr(t, '__cmp__', None)
        if m is not None:
            return truthv(eqv(m(x, y), 0))
    return a is b


def eq(a, b):
    return eqv(a, b)


def ne(a, b):
    ta = type(a)
    if ta not in BUILTIN_T and a is not None:
        m = getattr(ta, '__ne__', None)
        if m is not None and m is not object.__ne__:
            r = m(a, b)
            if r is not NotImplemented:
                return truthv(r)
    return lnot(eqv(a, b))


def order(a, b, op):
    ta, tb = type(a), type(b)
    if ta in NUM and tb in NUM:
        if ta in (int, float, bool) and tb in (int, float, bool):
            return (a < b if op == '<' else a <= b if op == '<=' else
                    a > b if op == '>' else a >= b)
        if isf(ta) or isf(tb):
            (n1, d1), (n2, d2) = as_rat(a), as_rat(b)
            return i_cmp(op, core.i_mul(n1, d2), core.i_mul(n2, d1))
        return i_cmp(op, toint(a), toint(b))
    if ta is PBytes or tb is PBytes:
        a, b = unbytes(a), unbytes(b)
        ta, tb = type(a), type(b)
    if is_str(a) and is_str(b):
        if op in ('<', '<='):
            return char_lt(a, b, op == '<')
        return char_lt(b, a, op == '>')
    if (ta is list and tb is list) or (ta is tuple and tb is tuple):
        n = min(len(a), len(b))
        la, lb = len(a), len(b)
        r = (la < lb if op == '<' else la <= lb if op == '<=' else
             la > lb if op == '>' else la >= lb)
        st = op[0]
        for i in reversed(range(n)):
            r = lor([order(a[i], b[i], st),
                     land([eqv(a[i], b[i]), r])])
        return r
    if ta not in BUILTIN_T or tb not in BUILTIN_T:
        nm, rn = {'<': ('__lt__', '__gt__'), '<=': ('__le__', '__ge__'),
                  '>': ('__gt__', '__lt__'), '>=': ('__ge__', '__le__')}[op]
        for x, y, m in ((a, b, nm), (b, a, rn)):
            if x is None or type(x) in BUILTIN_T:
                continue
            f = getattr(type(x), m, None)
            if f is not None and f is not getattr(object, m):
                r = f(x, y)
                if r is not NotImplemented:
                    return truthv(r)
        for x, y, sgn in ((a, b, 1), (b, a, -1)):
            f = getattr(type(x), '__cmp__', None)
            if f is not None:
                r = f(x, y)
                return order(mul(r, sgn), 0, op)
    if ta is PSet and tb is PSet:
        if op in ('<=', '>='):
            x, y = (a, b) if op == '<=' else (b, a)
            return land([y.d.member(k, eqv) for k in x])
    # Python 2 orders unrelated types: None < numbers < other by type name
    def rank(x):
        if x is None:
            return (0, '')
        if type(x) in NUM:
            return (1, '')
        return (2, {PStr: 'str', PUni: 'unicode', list: 'list',
                    tuple: 'tuple', PDict: 'dict'}.get(type(x)))
    ra, rb = rank(a), rank(b)
    if ra[1] is None or rb[1] is None or ra == rb:
        if a is None and b is None:
            return op in ('<=', '>=')
        raise Unsupported('ordering of %s and %s' % (tname(a), tname(b)))
    return (ra < rb) if op in ('<', '<=') else (ra > rb)


def lt(a, b):
    return order(a, b, '<')


def le(a, b):
    return order(a, b, '<=')


def gt(a, b):
    return order(a, b, '>')


def ge(a, b):
    return order(a, b, '>=')


def is_(a, b):
    if type(a) is SymBool or type(b) is SymBool:
        if type(a) in (bool, SymBool) and type(b) in (bool, SymBool):
            return eqv(a, b)
        return False
    if a is b:
        return True
    if type(a) in (int, SymInt) and type(b) in (int, SymInt):
        return eqv(a, b)
    return False


def isnot(a, b):
    return lnot(is_(a, b))


def in_(k, c):
    t = type(c)
    if t is PDict:
        return c.member(k, eqv)
    if t is PSet:
        return c.d.member(k, eqv)
    if t is list or t is tuple:
        if type(k) is SymInt and all(type(x) is int for x in c):
            return in_ranges(k, c)
        return lor([lor([eqv(x, k)]) for x in c])
    if t is PStr or t is PUni:
        k = unbytes(k)
        if not is_str(k):
            raise TypeError("'in <string>' requires string as left operand")
        return str_contains(c, k)
    if t is PArray:
        return lor([eqv(x, k) for x in c.a])
    if t is PBytes:
        if type(k) in (PStr, PBytes):
            return str_contains(c.str(), unbytes(k))
        return lor([eqv(x, byte_value(k)) for x in c.a])
    if t is range:
        if type(k) is int:
            return k in c
        return in_ranges(k, list(c))
    m = getattr(t, '__contains__', None)
    if m is not None:
        return truthv(m(c, k))
    for x in iter(c):
        if truth(eqv(x, k)):
            return True
    return False


def notin(k, c):
    return lnot(in_(k, c))


def str_contains(c, k):
    a, b = c.c, k.c
    n = len(b)
    if n == 0:
        return True
    sa, sb = c.conc(), k.conc()
    if sa is not None and sb is not None:
        return sb in sa
    out = []
    for i in range(len(a) - n + 1):
        out.append(land([i_cmp('==', a[i + j], b[j]) for j in range(n)]))
    return lor(out)


# --------------------------------------------------------------------------
# subscription


def cint(x):
    """Concrete index."""
    t = type(x)
    if t is int:
        return x
    if t is bool:
        return int(x)
    if t is SymInt or t is SymBool:
        return C().concretize_int(toint(x))
    m = getattr(t, '__index__', None)
    if m is not None and t not in BUILTIN_T:
        return cint(m(x))
    raise TypeError('indices must be integers, not %s' % tname(x))


def mkslice(a, b, c):
    return slice(a, b, c)


def cslice(s, n):
    """Slice with concrete bounds for a sequence of length n."""
    def bound(x):
        if x is None or type(x) is int:
            return x
        if type(x) is bool:
            return int(x)
        if type(x) is SymBool:
            x = toint(x)
        if type(x) is SymInt:
            # clamp first: all values beyond the ends behave alike
            if x.lo < -n:
                x = i_ite(as_z3(i_cmp('<', x, -n)), -n, x)
                x = _narrow(x, -n, None)
            if rng(x)[1] > n:
                x = i_ite(as_z3(i_cmp('>', x, n)), n, x)
                x = _narrow(x, None, n)
            return C().concretize_int(x)
        m = getattr(type(x), '__index__', None)
        if m is not None and type(x) not in BUILTIN_T:
            return bound(m(x))
        raise TypeError('slice indices must be integers')
    st = s.step
    if st is not None:
        st = cint(st)
        if st == 0:
            raise ValueError('slice step cannot be zero')
    return slice(bound(s.start), bound(s.stop), st)


def _narrow(x, lo, hi):
    if type(x) is not SymInt:
        return x
    l = x.lo if lo is None else max(lo, x.lo)
    h = x.hi if hi is None else min(hi, x.hi)
    if l == h:
        return l
    if l == x.lo and h == x.hi:
        return x
    if l > h:
        raise core.Infeasible()
    r = core.mk(x.e, l, h) if (x.lo < 0) == (l < 0) else \
        SymInt(core.bv(x, core.width_for(l, h)), l, h)
    r.prov = x.prov
    r.lin = (1, x, 0, 0)
    return r


def seq_index(lst, k):
    """Element of a Python list at a possibly symbolic index."""
    n = len(lst)
    if type(k) is SymInt:
        ctx = C()
        inr = land([i_cmp('>=', k, -n), i_cmp('<', k, n)])
        if not ctx.truth(inr):
            raise IndexError('index out of range')
        lo, hi = max(k.lo, -n), min(k.hi, n - 1)
        cand = [(i, lst[i]) for i in _b.range(lo, hi + 1)]
        vs = [v for _, v in cand]
        if all(type(v) in (int, SymInt) for v in vs):
            return core.i_table(k, cand)
        return None if not cand else _fork_index(k, cand)
    return lst[k]


def _fork_index(k, cand):
    from .vals import merge_pairs
    return merge_pairs([(None, i, v) for i, v in cand], k)


def getitem(o, k):
    t = type(o)
    if t is PDict:
        f, v = o.lookup(k, eqv)
        if not f:
            raise KeyError(k)
        return v
    if t is PStr or t is PUni:
        c = o.c
        if type(k) is slice:
            s = cslice(k, len(c))
            if o._s is not None:
                return t(c[s], o._s[s])
            return t(c[s])
        if type(k) is SymInt:
            return one(t, seq_index(c, k))
        if type(k) not in INTS:
            k = cint(k)
        try:
            return one(t, c[k])
        except IndexError:
            raise IndexError('string index out of range')
    if t is list or t is tuple:
        if type(k) is slice:
            return o[cslice(k, len(o))]
        if type(k) is int:
            return o[k]
        if type(k) is SymInt:
            return seq_index(o, k)
        return o[cint(k)]
    if t is PArray:
        if type(k) is slice:
            return PArray(o.typecode, o.a[cslice(k, len(o.a))])
        if type(k) is SymInt:
            return seq_index(o.a, k)
        return o.a[cint(k)]
    if t is PBytes:
        if type(k) is slice:
            return PBytes(o.a[cslice(k, len(o.a))])
        if type(k) is SymInt:
            return seq_index(o.a, k)
        return o.a[cint(k)]
    if t is range:
        return o[k]
    if isinstance(o, PDict):
        f, v = o.lookup(k, eqv)
        if not f:
            m = getattr(t, '__missing__', None)
            if m is not None:
                return m(o, k)
            raise KeyError(k)
        return v
    if type(k) is slice:
        m = getattr(t, '__getslice__', None)
        if m is not None and k.step is None:
            return m(o, 0 if k.start is None else k.start,
                     2147483647 if k.stop is None else k.stop)
    m = getattr(t, '__getitem__', None)
    if m is None or t in BUILTIN_T:
        raise TypeError('%s object is not subscriptable' % tname(o))
    return m(o, k)


class ref(object):
    """Assignment target o[k]."""
    __slots__ = ('o', 'k')

    def __init__(self, o, k):
        object.__setattr__(self, 'o', o)
        object.__setattr__(self, 'k', k)

    def __setattr__(self, name, v):
        setitem(self.o, self.k, v)


def setitem(o, k, v):
    t = type(o)
    if t is PDict:
        o.set(k, v, eqv)
        return
    if t is list:
        if type(k) is slice:
            o[cslice(k, len(o))] = list(iter(v))
            return
        if type(k) is SymInt:
            k = C().concretize_int(_index_range(k, len(o)))
        o[cint(k)] = v
        return
    if t is PArray:
        if type(k) is slice:
            if type(v) is not PArray:
                raise TypeError('can only assign array to array slice')
            o.a[cslice(k, len(o.a))] = v.a
            return
        if type(k) is SymInt:
            k = C().concretize_int(_index_range(k, len(o.a)))
        arr_check(o, v)
        o.a[cint(k)] = toint(v) if type(v) in INTS else v
        return
    if t is PBytes:
        if type(k) is slice:
            if type(v) in NUM or v is None:
                raise TypeError('object has no len()')
            o.a[cslice(k, len(o.a))] = byte_list(v)
            return
        if type(k) is SymInt:
            k = C().concretize_int(_index_range(k, len(o.a)))
        v = byte_value(v)
        o.a[cint(k)] = v
        return
    if t is tuple or is_str(o):
        raise TypeError('object does not support item assignment')
    if isinstance(o, PDict) and '__setitem__' not in dir(t):
        o.set(k, v, eqv)
        return
    m = getattr(t, '__setitem__', None)
    if m is None:
        raise TypeError('object does not support item assignment')
    m(o, k, v)


def _index_range(k, n):
    if not C().truth(land([i_cmp('>=', k, -n), i_cmp('<', k, n)])):
        raise IndexError('index out of range')
    return _narrow(k, -n, n - 1)


def delitem(o, k):
    t = type(o)
    if t is PDict or isinstance(o, PDict):
        if o.delete(k, eqv) is NOTFOUND:
            raise KeyError(k)
        return
    if t is list:
        if type(k) is slice:
            del o[cslice(k, len(o))]
        else:
            del o[cint(k)]
        return
    if t is PArray or t is PBytes:
        if type(k) is slice:
            del o.a[cslice(k, len(o.a))]
        else:
            del o.a[cint(k)]
        return
    m = getattr(t, '__delitem__', None)
    if m is None or t in BUILTIN_T:
        raise TypeError('object does not support item deletion')
    m(o, k)


# --------------------------------------------------------------------------
# iteration


_StopIteration = StopIteration


def iter(o):
    t = type(o)
    if t is list or t is tuple or t is range:
        return _b.iter(o)
    if is_str(o):
        return _b.iter([one(t, x) for x in o.c])
    if o is None or t in NUM:
        raise TypeError('%s object is not iterable' % tname(o))
    m = getattr(t, '__iter__', None)
    if m is not None:
        r = m(o)
        if type(r) is list or type(r) is tuple:
            return _b.iter(r)
        return r
    m = getattr(t, '__getitem__', None)
    if m is not None:
        def gen():
            i = 0
            while True:
                try:
                    v = m(o, i)
                except IndexError:
                    return
                yield v
                i += 1
        return gen()
    raise TypeError('%s object is not iterable' % tname(o))


def genexp(g):
    try:
        for x in g:
            yield x
    except RuntimeError as e:
        if isinstance(e.__cause__, StopIteration):
            return
        raise


def next_(it, *d):
    try:
        return next(it)
    except StopIteration:
        if d:
            return d[0]
        raise


# --------------------------------------------------------------------------
# containers


def mkdict(pairs):
    d = PDict()
    for k, v in pairs:
        d.set(k, v, eqv)
    return d


def mkset(xs):
    s = PSet()
    for x in xs:
        s.d.set(x, True, eqv)
    return s


def kwdict(kw):
    d = PDict()
    for k, v in kw.items():
        d.set(S(k), v, eqv)
    return d


def kwnative(d):
    if isinstance(d, PDict):
        return dict((k.need(), v) for k, v in d.entries())
    raise TypeError('argument after ** must be a mapping')


# --------------------------------------------------------------------------
# exceptions, classes


def mkexc(t, inst):
    if isinstance(t, type) and issubclass(t, BaseException):
        if inst is None:
            return t()
        if isinstance(inst, BaseException):
            return inst
        if type(inst) is tuple:
            return t(*inst)
        return t(inst)
    if isinstance(t, BaseException):
        return t
    raise TypeError('exceptions must be old-style classes or derived from '
                    'BaseException')


def exctype(t):
    if isinstance(t, list):
        return tuple(t)
    return t


def base(b):
    if isinstance(b, TypeModel):
        if b.native is None:
            raise Unsupported('subclass of %s' % b.__name__)
        return b.native
    return b


class Missing(object):
    """Something of the library without a model.  Modules may import and
    name it, a path that uses it has no answer."""

    def __init__(self, what, *a):
        self.__dict__['what'] = what if type(what) is str else 'class'

    def _use(self, *a, **k):
        raise Unsupported(self.what)

    def __call__(self, *a, **k):
        if core.CTX is None:
            return Missing(self.what)
        raise Unsupported(self.what)

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        if core.CTX is None:
            return Missing('%s.%s' % (self.what, n))
        raise Unsupported('%s.%s' % (self.what, n))

    __iter__ = __len__ = __bool__ = __eq__ = __hash__ = _use
    __getitem__ = __contains__ = __enter__ = _use


def named(f):
    def g(self, n, *a):
        if n.startswith('__') and f.__name__ == '__getattr__':
            raise AttributeError(n)
        return f(self, S(n), *a)
    g.__name__ = f.__name__
    return g


def finish_class(c):
    if type(c) is Missing:
        return c
    d = c.__dict__
    for n in ('__getattr__', '__getattribute__', '__setattr__',
              '__delattr__'):
        if type(d.get(n)) is types.FunctionType:
            setattr(c, n, named(d[n]))
    if 'next' in d and '__next__' not in d:
        def __next__(self):
            return self.next()
        c.__next__ = __next__
    if '__eq__' in d and d.get('__hash__') is None and '__hash__' not in \
            getattr(c, '_explicit', ()):
        # Python 2 keeps the identity hash
        try:
            c.__hash__ = object.__hash__
        except TypeError:
            pass
    return c


class TypeModel(object):
    """A builtin type object: callable, usable in isinstance."""

    def __init__(self, name, call, check, native=None, attrs=None):
        self.__name__ = name
        self.call = call
        self.check = check
        self.native = native
        self.attrs = attrs or {}

    def __call__(self, *a, **k):
        return self.call(*a, **k)

    def __repr__(self):
        return '<type %s>' % self.__name__


def isinstance_(x, t):
    if type(t) is tuple:
        return lor([isinstance_(x, u) for u in t])
    if isinstance(t, TypeModel):
        return t.check(x)
    if isinstance(t, type):
        return isinstance(x, t)
    raise TypeError('isinstance() arg 2 must be a class, type, or tuple')


def small(x):
    """Value is a Java int, i.e. type int rather than long."""
    t = type(x)
    if t is int:
        return -2147483648 <= x <= 2147483647
    lo, hi = x.lo, x.hi
    if -2147483648 <= lo and hi <= 2147483647:
        return True
    return land([i_cmp('>=', x, -2147483648), i_cmp('<=', x, 2147483647)])


def chk_int(x):
    t = type(x)
    if t is bool or t is SymBool:
        return True
    if t is int or t is SymInt:
        return small(x)
    return False


def chk_long(x):
    if type(x) in (int, SymInt):
        return lnot(small(x))
    return False


def type_of(x):
    t = type(x)
    r = TYPE_OF.get(t)
    if r is not None:
        if t is int or t is SymInt:
            return T_int if truth(small(x)) else T_long
        return r
    if isinstance(x, TypeModel) or t is type:
        return T_type
    return t


def issubclass_(c, t):
    if type(t) is tuple:
        return any(issubclass_(c, u) for u in t)
    if isinstance(c, TypeModel):
        if c is t:
            return True
        if t is T_basestring:
            return c is T_str or c is T_unicode
        if t is T_object:
            return True
        if t is T_int and c is T_bool:
            return True
        return False
    if isinstance(t, TypeModel):
        return t.native is not None and issubclass(c, t.native)
    return issubclass(c, t)


# --------------------------------------------------------------------------
# conversions


SPACES = ' \t\n\r\x0b\x0c'


def digit_value(x, basev):
    """(is_digit as bool/SymBool, value) for a plain digit char."""
    if type(x) is int:
        ch = chr(x) if x < 128 else ''
        v = '0123456789abcdefghijklmnopqrstuvwxyz'.find(ch.lower()) if ch \
            else -1
        return (0 <= v < basev), v
    p = x.prov
    if p is not None and p[0] == 'dig':
        lo, hi = rng(p[1])
        if hi < basev:
            return True, p[1]
        if lo < basev:
            return i_cmp('<', p[1], basev), _narrow(p[1], lo, basev - 1)
        return False, 0
    conds = []
    e = core.i_sub(x, 48)
    hi9 = 48 + min(basev, 10) - 1
    conds.append(land([i_cmp('>=', x, 48), i_cmp('<=', x, hi9)]))
    parts = [(conds[0], core.i_sub(x, 48))]
    if basev > 10:
        lo_c = land([i_cmp('>=', x, 97), i_cmp('<=', x, 97 + basev - 11)])
        up_c = land([i_cmp('>=', x, 65), i_cmp('<=', x, 65 + basev - 11)])
        parts.append((lo_c, core.i_sub(x, 87)))
        parts.append((up_c, core.i_sub(x, 55)))
        conds += [lo_c, up_c]
    parts = [(c, v) for c, v in parts if c is not False]
    if not parts:
        return False, 0
    # value: within [0, basev) whenever it is a digit
    w = (basev - 1).bit_length()
    e = core.bv(parts[-1][1], w)
    for c, v in reversed(parts[:-1]):
        e = z3.If(as_z3(c), core.bv(v, w), e)
    return lor([c for c, v in parts]), SymInt(z3.simplify(e), 0, basev - 1)


def join_digits(ds, basev):
    """Value of a list of digit values."""
    # whole-number provenance
    if all(type(d) is int for d in ds):
        r = 0
        for d in ds:
            r = r * basev + d
        return r
    if basev in (2, 4, 8, 16) and all(
            type(d) is int or d.lo >= 0 for d in ds):
        k = basev.bit_length() - 1
        runs = []
        for d in ds:
            # neighbouring pieces of one vector are put back together
            p = d.prov if type(d) is SymInt else None
            if p is not None and p[0] == 'bits' and runs and \
                    type(runs[-1]) is tuple and \
                    runs[-1][0].eq(p[1]) and runs[-1][2] == p[2] + 1:
                runs[-1] = (p[1], runs[-1][1], p[3])
            elif p is not None and p[0] == 'bits' and p[2] - p[3] == k - 1:
                runs.append((p[1], p[2], p[3]))
            elif type(d) is int or d.e.size() <= k:
                runs.append(core.bv(d, k))
            else:
                runs.append(z3.Extract(k - 1, 0, d.e))
        parts = []
        for p in runs:
            if type(p) is tuple:
                if p[2] == 0 and p[1] == p[0].size() - 1:
                    p = p[0]
                else:
                    p = z3.Extract(p[1], p[2], p[0])
            parts.append(p)
        e = z3.Concat(*parts) if len(parts) > 1 else parts[0]
        lo = hi = 0
        for d in ds:
            l, h = rng(d)
            lo = lo * basev + l
            hi = hi * basev + h
        return core.mk(e, lo, hi)
    r = 0
    for d in ds:
        r = core.i_add(core.i_mul(r, basev), d)
    return r


def parse_int(s, basev):
    c = s.c
    st = s.conc()
    if st is not None:
        return conc_int(st, basev)
    # whole provenance: digits written from one number
    x0 = c[0]
    if basev == 10 and type(x0) is SymInt and x0.prov is not None and \
            len(x0.prov) == 5:
        _, _, x, n, i = x0.prov
        if i == 0 and n == len(c) and all(
                type(y) is SymInt and y.prov is not None and
                len(y.prov) == 5 and y.prov[2] is x and y.prov[4] == j
                for j, y in enumerate(c)):
            return x
    ok = []
    ds = []
    for x in c:
        o, v = digit_value(x, basev)
        ok.append(o)
        ds.append(v)
    good = land(ok)
    if good is not False and truth(good):
        return join_digits(ds, basev)
    # not plain digits: signs, blanks, prefixes make it concrete
    ctx = C()
    odd = []
    for i, x in enumerate(c):
        if type(x) is int and ok[i] is True:
            continue
        cand = [9, 10, 11, 12, 13, 32]
        if i < len(c) - 1:
            cand += [43, 45]
        if basev in (16, 8, 2, 0):
            cand += [ord(ch) for ch in 'xXoObB']
        if i == len(c) - 1:
            cand += [ord('l'), ord('L')]
        odd.append(in_ranges(x, cand) if type(x) is SymInt else x in cand)
    if not truth(lor(odd)):
        raise ValueError('invalid literal for int()')
    return conc_int(s.need(), basev)


def conc_int(st, basev):
    t = st.strip(SPACES + '\x1c\x1d\x1e\x1f')
    if st.strip(SPACES) != t:
        raise ValueError('invalid literal for int()')
    u = t[1:] if t[:1] in ('+', '-') else t
    if '_' in t or not u or not all(ord(ch) < 128 for ch in t):
        raise ValueError('invalid literal for int(): %r' % st)
    if u[0] in SPACES:
        u2 = u.strip(SPACES)
        raise Unsupported('int() of sign and blanks')
    if u[-1] in 'lL' and basev <= 20:
        raise ValueError('invalid literal')
    try:
        return int(t, basev)
    except ValueError:
        if basev == 0 and u.isdigit():
            return int(t, 8)
        raise ValueError('invalid literal for int(): %r' % st)


def rtrunc(n, d):
    """int() of the rational n/d."""
    if type(n) is int:
        q = abs(n) // d
        return q if n >= 0 else -q
    if rng(n)[0] >= 0:
        return core.i_floordiv(n, d)
    if truth(i_cmp('>=', n, 0)):
        return core.i_floordiv(_narrow(n, 0, None), d)
    return core.i_neg(core.i_floordiv(core.i_neg(n), d))


def int_(x=0, basev=None):
    t = type(x)
    if t is PBytes and basev is None:
        x = x.str()
    if basev is not None:
        if not is_str(x):
            raise TypeError("int() can't convert non-string with explicit "
                            "base")
        return parse_int_checked(x, cint(basev))
    if t is int or t is SymInt:
        return x
    if t is bool or t is SymBool:
        return toint(x)
    if t is float:
        return int(x)
    if t is SymRat:
        return rtrunc(x.num, x.den)
    if is_str(x):
        return parse_int_checked(x, 10)
    m = getattr(t, '__int__', None)
    if m is not None and t not in BUILTIN_T:
        return m(x)
    raise TypeError('int() argument must be a string or a number')


def parse_int_checked(x, basev):
    if len(x.c) == 0:
        raise ValueError('invalid literal for int()')
    return parse_int(x, basev)


def float_(x=0.0):
    t = type(x)
    if t is float or t is SymRat:
        return x
    if t is int or t is bool:
        return float(x)
    if t in INTS:
        return SymRat(toint(x), 1)
    if is_str(x):
        return float(x.need())
    m = getattr(t, '__float__', None)
    if m is not None and t not in BUILTIN_T:
        return m(x)
    raise TypeError('float() argument must be a string or a number')


def bool_(x=False):
    return truthv(x)


def digits_of(x, basev, upper=False):
    """Chars of a non-negative symbolic int without padding; forks on the
    number of digits."""
    lo, hi = rng(x)
    n = 1
    while basev ** n <= hi:
        n += 1
    m = 1
    while basev ** m <= lo:
        m += 1
    while m < n:
        if truth(i_cmp('<', x, basev ** m)):
            break
        m += 1
    return fixed_digits(x, basev, m, upper)


def fixed_digits(x, basev, n, upper=False):
    if type(x) is int:
        s = ''
        for _ in range(n):
            x, d = divmod(x, basev)
            s = '0123456789abcdef'[d] + s
        return [ord(ch) for ch in (s.upper() if upper else s)]
    out = []
    if basev == 16 or basev == 8 or basev == 2:
        k = basev.bit_length() - 1
        w = n * k
        e = x.e
        if x.lo < 0 or e.size() < w:
            e = core.bv(x, w)
        for i in range(n):
            at = (n - 1 - i) * k
            if x.lo >= 0 and x.lo >> at == x.hi >> at:
                out.append(hexchar((x.lo >> at) & (basev - 1), upper))
                continue
            d = z3.Extract(at + k - 1, at, e)
            v = core.simp_const(d)
            if v is not None:
                out.append(hexchar(v, upper))
                continue
            dm = basev - 1
            if x.lo >= 0:
                dm = min(dm, x.hi >> at)
            d = SymInt(d, 0, dm) if dm == basev - 1 else core.mk(d, 0, dm)
            d.prov = ('bits', e, at + k - 1, at)
            out.append(digchar(d, upper))
        return out
    for i in range(n):
        p = basev ** (n - 1 - i)
        d = core.i_floordiv(x, p) if p > 1 else x
        if type(d) is SymInt and (i > 0 or rng(d)[1] >= basev):
            d = core.i_mod(d, basev)
        if type(d) is int:
            out.append(hexchar(d % basev, upper))
            continue
        ch = digchar(d, upper)
        ch.prov = ('dig', d, x, n, i)
        out.append(ch)
    return out


def hexchar(v, upper):
    return ord('0123456789ABCDEF'[v] if upper else '0123456789abcdef'[v])


def digchar(d, upper):
    lo, hi = rng(d)
    if hi <= 9:
        r = core.i_add(d, 48)
    elif lo >= 10:
        r = core.i_add(d, 55 if upper else 87)
    else:
        w = 7
        e = z3.If(z3.ULT(core.bv(d, w), 10), core.bv(d, w) + 48,
                  core.bv(d, w) + (55 if upper else 87))
        r = SymInt(e, lo + 48, hi + (55 if upper else 87))
    r = SymInt(r.e, r.lo, r.hi, ('dig', d))
    return r


def int_chars(x, basev=10, upper=False):
    """Decimal chars of any int; forks on sign and length."""
    if type(x) is int:
        if basev == 2:
            s = ('-' if x < 0 else '') + bin(abs(x))[2:]
            return [ord(c) for c in s]
        s = {10: '%d', 16: '%X' if upper else '%x', 8: '%o'}[basev] % x
        return [ord(c) for c in s]
    if x.lo < 0:
        if truth(i_cmp('<', x, 0)):
            return [45] + digits_of(_narrow(core.i_neg(x), 0, None), basev,
                                    upper)
        x = _narrow(x, 0, None)
        if type(x) is int:
            return int_chars(x, basev, upper)
    return digits_of(x, basev, upper)


def str_(*a):
    if not a:
        return S('')
    x = a[0]
    t = type(x)
    if t is PStr:
        return x
    if t is PUni:
        return encode_ascii(x)
    if t is PBytes:
        return x.str()
    if t is int:
        return S(str(x))
    if t is bool:
        return S(str(x))
    if t is SymInt:
        return PStr.lazy(lambda: int_chars(x))
    if t is SymBool:
        return S('True') if truth(x) else S('False')
    if x is None:
        return S('None')
    if t is str:
        return S(x)
    if t is float:
        return S('%.12g' % x if x != int(x) else '%.1f' % x)
    if isinstance(x, BaseException):
        if len(x.args) == 0:
            return S('')
        if len(x.args) == 1:
            return str_(x.args[0])
        return repr_(tuple(x.args))
    m = getattr(t, '__str__', None)
    if t not in BUILTIN_T and m is not None and m is not object.__str__:
        return m(x)
    return repr_(x)


def encode_ascii(x):
    for ch in x.c:
        if type(ch) is int:
            if ch > 127:
                raise UnicodeEncodeError('ascii', '\xff', 0, 1, 'ordinal')
        elif not truth(i_cmp('<', ch, 128)):
            raise UnicodeEncodeError('ascii', '\xff', 0, 1, 'ordinal')
    return PStr(tuple(_narrow(ch, None, 127) for ch in x.c))


def unicode_(*a):
    if not a:
        return U('')
    x = unbytes(a[0])
    t = type(x)
    if len(a) > 1:
        from . import models
        return models.decode(x, a[1], *a[2:])
    if t is PUni:
        return x
    if t is PStr:
        return to_uni(x)
    m = getattr(t, '__unicode__', None)
    if m is not None:
        return m(x)
    r = str_(x)
    return to_uni(r)


def repr_(x):
    t = type(x)
    if t is int or t is SymInt or t is bool or t is SymBool or t is float \
            or x is None:
        return str_(x)
    m = getattr(t, '__repr__', None)
    if t not in BUILTIN_T and m is not None and m is not object.__repr__ \
            and not isinstance(x, (BaseException, TypeModel, type)):
        return m(x)

    if t is list or t is tuple:
        # as they are now
        items = [repr_(y) for y in x]
    elif t is PBytes:
        x = PBytes(list(x.str().c))
    elif t is PArray and x.typecode != 'c':
        return add(add(S("array('%s', " % x.typecode),
                       repr_(list(iter(x)))), S(')')) \
            if len(x) else S("array('%s')" % x.typecode)
    elif t is PDict and len(list(x.entries())) < 2:
        # the order of more is arbitrary
        for a, b in x.entries():
            return add(add(add(S('{'), repr_(a)), S(': ')),
                       add(repr_(b), S('}')))
        return S('{}')

    def real():
        if t is PStr:
            return [ord(c) for c in py2repr(x.need())]
        if t is PUni:
            return [ord(c) for c in 'u' + py2repr(x.need())]
        if t is PBytes:
            return [ord(c) for c in 'bytearray(b' +
                    py2repr(x.str().need()) + ')']
        if t is list or t is tuple:
            parts = [list(y.c) for y in items]
            out = []
            for i, p in enumerate(parts):
                if i:
                    out += [44, 32]
                out += p
            if t is list:
                return [91] + out + [93]
            return [40] + out + ([44] if len(parts) == 1 else []) + [41]
        raise Unsupported('repr of %s' % tname(x))
    return PStr.lazy(real)


def py2repr(s):
    q = "'"
    if "'" in s and '"' not in s:
        q = '"'
    out = q
    for ch in s:
        o = ord(ch)
        if ch == q or ch == '\\':
            out += '\\' + ch
        elif ch == '\n':
            out += '\\n'
        elif ch == '\r':
            out += '\\r'
        elif ch == '\t':
            out += '\\t'
        elif 32 <= o < 127:
            out += ch
        elif o < 256:
            out += '\\x%02x' % o
        elif o < 65536:
            out += '\\u%04x' % o
        else:
            out += '\\U%08x' % o
    return out + q


# formatting ----------------------------------------------------------------


def fmt(f, args):
    ft = type(f)
    s = f.need()
    if type(args) is tuple:
        vals = list(args)
    else:
        vals = [args]
    pieces = []     # each: list of chars, or a callable giving them
    uni = ft is PUni
    i = 0
    n = len(s)
    used = 0
    lit = []
    ismap = False
    while i < n:
        ch = s[i]
        if ch != '%':
            lit.append(ord(ch))
            i += 1
            continue
        i += 1
        if i >= n:
            raise ValueError('incomplete format')
        if s[i] == '%':
            lit.append(37)
            i += 1
            continue
        key = None
        if s[i] == '(':
            j = s.index(')', i)
            key = s[i + 1:j]
            i = j + 1
        flags = ''
        while i < n and s[i] in '#0- +':
            flags += s[i]
            i += 1

        def num():
            nonlocal i, used
            if i < n and s[i] == '*':
                i += 1
                v = cint(vals[used])
                used += 1
                return v
            t = ''
            while i < n and s[i].isdigit():
                t += s[i]
                i += 1
            return int(t) if t else None
        width = num()
        prec = None
        if i < n and s[i] == '.':
            i += 1
            prec = num() or 0
        while i < n and s[i] in 'hlL':
            i += 1
        if i >= n:
            raise ValueError('incomplete format')
        conv = s[i]
        i += 1
        if key is not None:
            v = getitem(args, S(key))
            ismap = True
        else:
            if used >= len(vals):
                raise TypeError('not enough arguments for format string')
            v = vals[used]
            used += 1
        if lit:
            pieces.append(lit)
            lit = []
        r = fmt1(conv, flags, width, prec, v)
        if type(r) is tuple:     # unicode text
            uni = True
            r = list(r)
        pieces.append(r)
    if lit:
        pieces.append(lit)
    if used < len(vals) and not ismap and not (
            type(args) is not tuple and isinstance(args, (PDict,))):
        raise TypeError('not all arguments converted')
    cls = PUni if uni else PStr
    if any(callable(p) for p in pieces):
        def real():
            out = []
            for p in pieces:
                out.extend(p() if callable(p) else p)
            return out
        return cls.lazy(real)
    out = []
    for p in pieces:
        out.extend(p)
    return cls(tuple(out))


def pad(chars, flags, width):
    if width is not None and len(chars) < width:
        k = width - len(chars)
        if '-' in flags:
            return chars + [32] * k
        return [32] * k + chars
    return chars


def fmt1(conv, flags, width, prec, v):
    if conv in 'sr':
        t = v if (is_str(v) and conv == 's') else \
            (repr_(v) if conv == 'r' else
             (v if is_str(v) else str_(v)))
        isu = type(t) is PUni

        def real():
            c = list(t.c)
            if prec is not None:
                c = c[:prec]
            return pad(c, flags, width)
        if t._lazy is not None and not isu:
            return real
        return tuple(real()) if isu else real()
    if conv == 'c':
        if is_str(v):
            if len(v.c) != 1:
                raise TypeError('%c requires int or char')
            return pad(list(v.c), flags, width)
        return pad([toint(v)], flags, width)
    if conv in 'diuxXo':
        t = type(v)
        if t is float or t is SymRat:
            if conv in 'xXo':
                raise TypeError('%x format: an integer is required')
            v = int_(v)
        elif t not in INTS:
            m = getattr(t, '__int__', None)
            if m is None or t in BUILTIN_T:
                raise TypeError('%%%s format: a number is required, not %s'
                                % (conv, tname(v)))
            v = m(v)
        v = toint(v)
        if conv in 'iu':
            conv = 'd'
        if type(v) is int:
            spec = '%' + flags + (str(width) if width is not None else '') + \
                ('.%d' % prec if prec is not None else '') + conv
            return [ord(c) for c in spec % v]
        basev = {'d': 10, 'x': 16, 'X': 16, 'o': 8}[conv]
        up = conv == 'X'
        if prec is not None and 'x' not in conv.lower() or '#' in flags or \
                '+' in flags or ' ' in flags:
            raise Unsupported('format flags on a symbolic int')
        zw = 0
        if '0' in flags and '-' not in flags and width:
            zw = width
        if prec is not None:
            zw = max(zw, prec)
        if zw and v.lo >= 0 and v.hi < basev ** zw:
            return pad(fixed_digits(v, basev, zw, up), flags, width)

        def real():
            c = int_chars(v, basev, up)
            if zw and len(c) < zw:
                if c[0] == 45:
                    c = [45] + [48] * (zw - len(c)) + c[1:]
                else:
                    c = [48] * (zw - len(c)) + c
            return pad(c, flags, width)
        return real
    if conv in 'eEfFgG':
        v = float_(v)
        if type(v) is not float:
            raise Unsupported('float formatting of a symbolic value')
        spec = '%' + flags + (str(width) if width is not None else '') + \
            ('.%d' % prec if prec is not None else '') + conv
        return [ord(c) for c in spec % v]
    raise ValueError('unsupported format character')


def chr_(x):
    x = pyint(x)
    if type(x) is SymInt:
        if not truth(land([i_cmp('>=', x, 0), i_cmp('<=', x, 255)])):
            raise ValueError('chr() arg not in range(256)')
        return PStr((_narrow(x, 0, 255),))
    if not 0 <= x <= 255:
        raise ValueError('chr() arg not in range(256)')
    return ONE_S[x]


def pyint(x):
    t = type(x)
    if t is int or t is SymInt:
        return x
    if t in INTS:
        return toint(x)
    m = getattr(t, '__index__', None)
    if m is not None and t not in BUILTIN_T:
        return m(x)
    raise TypeError('an integer is required')


def unichr_(x):
    x = pyint(x)
    if type(x) is SymInt:
        if not truth(land([i_cmp('>=', x, 0), i_cmp('<=', x, 0x10ffff),
                           lor([i_cmp('<', x, 0xd800),
                                i_cmp('>', x, 0xdfff)])])):
            raise ValueError('unichr() arg not in range')
        return PUni((_narrow(x, 0, 0x10ffff),))
    if not 0 <= x <= 0x10ffff or 0xd800 <= x <= 0xdfff:
        raise ValueError('unichr() arg not in range')
    return PUni((x,))


def ord_(x):
    x = unbytes(x)
    if not is_str(x):
        if type(x) is PArray:
            raise TypeError('ord() expected string')
        raise TypeError('ord() expected string of length 1, but %s found'
                        % tname(x))
    c = x.c
    if len(c) != 1:
        raise TypeError('ord() expected a character, but string of length '
                        '%d found' % len(c))
    return c[0]


# --------------------------------------------------------------------------
# builtin functions


def len_(x):
    t = type(x)
    if t in (list, tuple, PStr, PUni, PDict, PArray, PSet, range, PBytes):
        return len(x)
    if x is None or t in NUM:
        raise TypeError('object of type %s has no len()' % tname(x))
    m = getattr(t, '__len__', None)
    if m is None:
        raise TypeError('object of type %s has no len()' % tname(x))
    return m(x)


def range_(*a):
    a = [pyint(x) for x in a]
    if any(type(x) is SymInt for x in a):
        ctx = C()
        a = [ctx.concretize_int(x) for x in a]
    r = _b.range(*a)
    if len(r) > 5000000:
        raise Unsupported('huge range')
    return list(r)


def xrange_(*a):
    a = [pyint(x) for x in a]
    for x in a:
        lo, hi = rng(x)
        if hi > 2147483647 or lo < -2147483648:
            if not truth(small(x)):
                raise OverflowError('xrange() argument too large')
    if any(type(x) is SymInt for x in a):
        if len(a) == 1:
            return SymRange(0, a[0])
        if len(a) == 2:
            return SymRange(a[0], a[1])
        if type(a[2]) is int and a[2] == 1:
            return SymRange(a[0], a[1])
        ctx = C()
        a = [ctx.concretize_int(x) for x in a]
    return _b.range(*a)


def enumerate_(x, start=0):
    return _b.enumerate(iter(x), start)


def zip_(*xs):
    return list(_b.zip(*[iter(x) for x in xs]))


def map_(f, *xs):
    if f is None:
        if len(xs) == 1:
            return list(iter(xs[0]))
        f = lambda *t: t
    if len(xs) == 1:
        return [f(x) for x in iter(xs[0])]
    its = [list(iter(x)) for x in xs]
    n = max(len(i) for i in its)
    its = [i + [None] * (n - len(i)) for i in its]
    return [f(*t) for t in _b.zip(*its)]


def filter_(f, xs):
    out = [x for x in iter(xs) if truth(x if f is None else f(x))]
    if is_str(xs):
        cls = type(xs)
        return cls(tuple(x.c[0] for x in out))
    if type(xs) is tuple:
        return tuple(out)
    return out


def reduce_(f, xs, *init):
    it = iter(xs)
    if init:
        acc = init[0]
    else:
        try:
            acc = next(it)
        except StopIteration:
            raise TypeError('reduce() of empty sequence')
    for x in it:
        acc = f(acc, x)
    return acc


def reversed_(x):
    if type(x) in (list, tuple):
        return _b.iter(list(x)[::-1])
    m = getattr(type(x), '__reversed__', None)
    if m is not None and type(x) not in BUILTIN_T:
        return m(x)
    return _b.iter(list(iter(x))[::-1])


def sort_list(lst, cmp=None, key=None, reverse=False):
    items = [((key(x) if key is not None else x), x) for x in lst]
    rev = truth(reverse)
    if rev:
        items.reverse()
    out = []
    for k, x in items:       # stable binary-free insertion sort
        i = len(out)
        while i > 0:
            if cmp is not None:
                less = truth(lt(cmp(k, out[i - 1][0]), 0))
            else:
                less = truth(lt(k, out[i - 1][0]))
            if not less:
                break
            i -= 1
        out.insert(i, (k, x))
    res = [x for _, x in out]
    if rev:
        res.reverse()
    return res


def sorted_(x, cmp=None, key=None, reverse=False):
    return sort_list(list(iter(x)), cmp, key, reverse)


def any_(x):
    for v in iter(x):
        if truth(v):
            return True
    return False


def all_(x):
    for v in iter(x):
        if not truth(v):
            return False
    return True


def sum_(x, start=0):
    r = start
    for v in iter(x):
        r = add(r, v)
    return r


def _minmax(op, a, key):
    xs = list(iter(a[0])) if len(a) == 1 else list(a)
    if not xs:
        raise ValueError('empty sequence')
    r = xs[0]
    for v in xs[1:]:
        c = order(v if key is None else key(v),
                  r if key is None else key(r), op)
        if type(c) is SymBool:
            if type(v) in (int, SymInt) and type(r) in (int, SymInt):
                l1, h1 = rng(v)
                l2, h2 = rng(r)
                x = i_ite(c.e, v, r)
                if op == '<':
                    x = _narrow(x, None, min(h1, h2))
                else:
                    x = _narrow(x, max(l1, l2), None)
                r = x
                continue
            c = truth(c)
        if c:
            r = v
    return r


def min_(*a, **k):
    return _minmax('<', a, k.get('key'))


def max_(*a, **k):
    return _minmax('>', a, k.get('key'))


def abs_(x):
    t = type(x)
    if t in (int, float, bool):
        return abs(x)
    if t is SymInt:
        if x.lo >= 0:
            return x
        if truth(i_cmp('<', x, 0)):
            return core.i_neg(_narrow(x, None, -1))
        return _narrow(x, 0, None)
    if t is SymRat:
        if truth(lt(x, 0)):
            return neg(x)
        return x
    m = getattr(t, '__abs__', None)
    if m is not None:
        return m(x)
    raise TypeError('bad operand type for abs()')


def divmod_(a, b):
    return (floordiv(a, b), mod(a, b))


def round_(x, n=0):
    t = type(x)
    if t in (int, float):
        # half away from zero
        p = 10 ** n
        v = abs(x) * p
        r = _math.floor(v + 0.5) / p
        return float(r if x >= 0 else -r)
    num, den = as_rat(x)
    if n != 0:
        raise Unsupported('round')
    if truth(i_cmp('>=', num, 0)):
        q = core.i_floordiv(core.i_add(core.i_mul(num, 2), den), 2 * den)
        return SymRat(q, 1) if type(q) is not int else float(q)
    m = core.i_neg(num)
    q = core.i_neg(core.i_floordiv(core.i_add(core.i_mul(m, 2), den),
                                   2 * den))
    return SymRat(q, 1) if type(q) is not int else float(q)


def minus(c):
    return type(c[0]) is int and c[0] == 45


def hex_(x):
    if type(x) is int:
        return S(hex(x))

    def real():
        c = int_chars(toint(x), 16)
        return [45, 48, 120] + c[1:] if minus(c) else [48, 120] + c
    return PStr.lazy(real)


def bin_(x):
    if type(x) is int:
        return S(bin(x))
    if type(x) not in INTS:
        raise TypeError("'%s' object cannot be interpreted as an index"
                        % tname(x))

    def real():
        c = int_chars(toint(x), 2)
        return [45, 48, 98] + c[1:] if minus(c) else [48, 98] + c
    return PStr.lazy(real)


def apply_(f, a=(), k=None):
    kw = dict((n.need(), v) for n, v in k.entries()) if k else {}
    return f(*iter(a), **kw)


def vars_(*a):
    if not a:
        raise Unsupported('vars()')
    return ga(a[0], '__dict__')


def format_(v, spec=None):
    from . import strs
    return strs.format_value(v, spec.need() if spec else '', False)


def oct_(x):
    if type(x) is int:
        return S('0%o' % x if x else '0')
    raise Unsupported('oct')


def cmp_(a, b):
    if truth(lt(a, b)):
        return -1
    if truth(eqv(a, b)):
        return 0
    return 1


def callable_(x):
    return callable(x)


def id_(x):
    return id(x)


def hash_(x):
    k = canon_key(x)
    if k is None:
        raise Unsupported('hash of a symbolic value')
    return hash(k) & 0x7fffffff


def hasattr_(o, n):
    try:
        ga(o, n.need())
        return True
    except AttributeError:
        return False


def getattr_(o, n, *d):
    try:
        return ga(o, n.need())
    except AttributeError:
        if d:
            return d[0]
        raise


def setattr_(o, n, v):
    setattr(o, n.need(), v)


def delattr_(o, n):
    delattr(o, n.need())


def list_(*a):
    if not a:
        return []
    return list(iter(a[0]))


def tuple_(*a):
    if not a:
        return ()
    if type(a[0]) is tuple:
        return a[0]
    return tuple(iter(a[0]))


def dict_update(d, a, kw):
    if a:
        x = a[0]
        if isinstance(x, PDict):
            for k, v in x.entries():
                d.set(k, v, eqv)
        elif hasattr(x, 'keys'):
            for k in x.keys():
                d.set(k, getitem(x, k), eqv)
        else:
            for p in iter(x):
                k, v = iter(p)
                d.set(k, v, eqv)
    for k, v in kw.items():
        d.set(S(k), v, eqv)


def dict_(*a, **kw):
    d = PDict()
    dict_update(d, a, kw)
    return d


def set_(*a):
    s = PSet()
    if a:
        for x in iter(a[0]):
            s.d.set(x, True, eqv)
    return s


def frozenset_(*a):
    return set_(*a)


def type_(*a):
    if len(a) == 1:
        return type_of(a[0])
    return type(a[0].need(), tuple(base(b) for b in a[1]) or (object,),
                kwnative(a[2]))


def object_():
    return object()


T_int = TypeModel('int', int_, chk_int)
T_long = TypeModel('long', int_, chk_long)
T_bool = TypeModel('bool', bool_, lambda x: type(x) in (bool, SymBool))
T_float = TypeModel('float', float_, lambda x: type(x) in (float, SymRat))
T_str = TypeModel('str', str_, lambda x: isinstance(x, PStr), PStr)
T_unicode = TypeModel('unicode', unicode_, lambda x: isinstance(x, PUni),
                      PUni)
T_basestring = TypeModel('basestring', None, lambda x: isinstance(x, PBase))
T_list = TypeModel('list', list_, lambda x: isinstance(x, list), list)
T_tuple = TypeModel('tuple', tuple_, lambda x: isinstance(x, tuple), tuple)
T_dict = TypeModel('dict', dict_, lambda x: isinstance(x, PDict), PDict)
T_set = TypeModel('set', set_, lambda x: type(x) is PSet)
T_frozenset = TypeModel('frozenset', frozenset_, lambda x: type(x) is PSet)
T_object = TypeModel('object', object_, lambda x: True, object)
T_none = TypeModel('NoneType', None, lambda x: x is None)
T_type = TypeModel('type', type_, lambda x: isinstance(x, (type, TypeModel)),
                   type)
T_slice = TypeModel('slice', lambda *a: slice(*a),
                    lambda x: type(x) is slice)


def array_(typecode, init=None):
    tc = typecode.need()
    if tc not in ('B', 'b', 'H', 'I', 'L', 'c'):
        raise Unsupported('array typecode %s' % tc)
    r = PArray(tc)
    if init is None:
        return r
    if type(init) is PStr:
        arr_fromstring(r, init)
    elif type(init) is PUni:
        raise TypeError('cannot use a unicode to initialise an array')
    else:
        for v in iter(init):
            arr_append(r, v)
    return r


LIMITS = {'B': (0, 255), 'b': (-128, 127), 'H': (0, 65535),
          'I': (0, 2 ** 32 - 1), 'L': (0, 2 ** 32 - 1)}


def arr_check(a, v):
    if a.typecode == 'c':
        raise Unsupported('char array')
    if type(v) not in INTS:
        raise TypeError('an integer is required')
    lo, hi = LIMITS[a.typecode]
    v = toint(v)
    l, h = rng(v)
    if l < lo or h > hi:
        if not truth(land([i_cmp('>=', v, lo), i_cmp('<=', v, hi)])):
            raise OverflowError('value out of range for array')


def arr_append(a, v):
    arr_check(a, v)
    lo, hi = LIMITS[a.typecode]
    a.a.append(_narrow(toint(v), lo, hi))


def arr_fromstring(a, s):
    s = unbytes(s)
    if a.typecode == 'B':
        a.a.extend(s.c)
        return
    raise Unsupported('array.fromstring %s' % a.typecode)


def arr_tostring(a):
    if a.typecode == 'B':
        return PStr(tuple(a.a))
    raise Unsupported('array.tostring %s' % a.typecode)


T_integer = TypeModel('Integral', None, lambda x: type(x) in INTS)
T_number = TypeModel('Number', None, lambda x: type(x) in NUM)
T_array = TypeModel('array', array_, lambda x: type(x) is PArray)


def unbytes(x):
    return x.str() if type(x) is PBytes else x


def byte_value(v):
    if type(v) is PStr and len(v.c) == 1:
        return v.c[0]
    if type(v) not in INTS:
        raise TypeError('an integer or string of size 1 is required')
    v = toint(v)
    l, h = rng(v)
    if l < 0 or h > 255:
        if not truth(land([i_cmp('>=', v, 0), i_cmp('<=', v, 255)])):
            raise ValueError('byte must be in range(0, 256)')
    return _narrow(v, 0, 255)


def byte_list(v):
    """The octets of an iterable, all checked before any is used."""
    t = type(v)
    if t is PStr:
        return list(v.c)
    if t is PUni:
        raise TypeError("can't set bytearray slice from unicode")
    if t is PBytes or (t is PArray and v.typecode == 'B'):
        return list(v.a)
    return [byte_value(x) for x in list(iter(v))]


def bytearray_(*args):
    if not args:
        return PBytes()
    x, enc, errors = (args + (None, None))[:3]
    if type(x) is PUni:
        if enc is None:
            raise TypeError('unicode argument without an encoding')
        from . import strs
        return PBytes(list(strs.encode(x, enc, errors).c))
    if enc is not None:
        raise Unsupported('bytearray with an encoding')
    if type(x) in INTS:
        n = C().concretize_int(toint(x)) if type(x) in (SymInt, SymBool) \
            else int(x)
        if n < 0:
            raise ValueError('negative count')
        return PBytes([0] * n)
    return PBytes(byte_list(x))


def ba_fromhex(s):
    from . import strs
    if not truth(land([i_cmp('!=', x, 32) for x in s.c])):
        raise Unsupported('bytearray.fromhex with blanks')
    try:
        return PBytes(list(strs.decode(s, S('hex')).c))
    except TypeError:
        raise ValueError('non-hexadecimal number found in fromhex()')


T_bytearray = TypeModel('bytearray', bytearray_, lambda x: type(x) is PBytes,
                        None, {'fromhex': ba_fromhex})

TYPE_OF = {int: T_int, SymInt: T_int, bool: T_bool, SymBool: T_bool,
           float: T_float, SymRat: T_float, PStr: T_str, PUni: T_unicode,
           list: T_list, tuple: T_tuple, PDict: T_dict, PSet: T_set,
           PArray: T_array, PBytes: T_bytearray, type(None): T_none, TypeModel: T_type,
           slice: T_slice, range: T_list}

BUILTIN_T = frozenset(TYPE_OF)


# --------------------------------------------------------------------------
# attributes


def ga(o, n):
    t = type(o)
    if t is Missing:
        return getattr(o, n)
    h = ATTRS.get(t)
    if h is None:
        if n == '__class__':
            return type_of(o)
        if n == '__dict__' and not isinstance(o, (type, TypeModel)):
            d = PDict()
            for k, v in vars(o).items():
                d.set(S(k), v, eqv)
            return d
        if t is TypeModel:
            if n in o.attrs:
                return o.attrs[n]
            if n == '__name__':
                return S(o.__name__)
            if n == '__class__':
                return T_type
            m = unbound(o, n)
            if m is not None:
                return m
            raise AttributeError(n)
        if n in ('__name__', '__module__', '__doc__'):
            v = getattr(o, n)
            return S(v) if type(v) is str else v
        if n == 'next':
            try:
                return getattr(o, n)
            except AttributeError:
                if hasattr(t, '__next__'):
                    return lambda: next(o)
                raise
        if n in ('im_func', '__func__'):
            return o.__func__
        if n == 'func_name':
            return S(o.__name__)
        if n == 'args' and isinstance(o, BaseException):
            return tuple(S(x) if type(x) is str else x for x in o.args)
        if n == 'message' and isinstance(o, BaseException) and \
                not hasattr(o, 'message'):
            x = o.args[0] if len(o.args) == 1 else S('')
            return S(x) if type(x) is str else x
        if isinstance(o, PDict):
            try:
                return getattr(o, n)
            except AttributeError:
                m = DICT_M.get(n)
                if m is not None:
                    return functools.partial(m, o)
                raise
        if isinstance(o, (PStr, PUni, list)) and t is not list:
            try:
                return object.__getattribute__(o, n)
            except AttributeError:
                return ATTRS[PStr if isinstance(o, PStr) else
                             PUni if isinstance(o, PUni) else list](o, n)
        return getattr(o, n)
    if n == '__class__':
        return type_of(o)
    return h(o, n)


gm = ga


def unbound(t, n):
    h = {'str': PStr, 'unicode': PUni, 'list': list, 'dict': PDict,
         'tuple': tuple}.get(t.__name__)
    if t.__name__ == 'dict' and n == 'fromkeys':
        def fromkeys(ks, v=None):
            d = PDict()
            for k in iter(ks):
                d.set(k, v, eqv)
            return d
        return fromkeys
    if h is None:
        if t.__name__ == 'object' and n in ('__init__', '__new__',
                                            '__setattr__',
                                            '__getattribute__'):
            return getattr(object, n)
        return None
    if t.__name__ == 'dict' and n in ('__init__',):
        return lambda self, *a, **k: dict_update(self, a, k)
    tab = {PStr: STR_M, PUni: STR_M, list: LIST_M, PDict: DICT_M,
           tuple: {}}[h]
    return tab.get(n)


def no_attr(o, n):
    raise AttributeError("'%s' object has no attribute '%s'" % (tname(o), n))


def table_attrs(tab):
    def h(o, n):
        m = tab.get(n)
        if m is None:
            no_attr(o, n)
        return functools.partial(m, o)
    return h


# list methods

def list_index(l, v, start=0, stop=None):
    n = len(l)
    lo = cint(start)
    if lo < 0:
        lo = max(0, lo + n)
    hi = n if stop is None else cint(stop)
    if hi < 0:
        hi += n
    for i in range(lo, min(hi, n)):
        if truth(eqv(l[i], v)):
            return i
    raise ValueError('list.index(x): x not in list')


def list_remove(l, v):
    for i, x in enumerate(l):
        if truth(eqv(x, v)):
            del l[i]
            return
    raise ValueError('list.remove(x): x not in list')


def list_count(l, v):
    n = 0
    for x in l:
        if truth(eqv(x, v)):
            n += 1
    return n


def list_pop(l, i=-1):
    if not l:
        raise IndexError('pop from empty list')
    if type(i) is SymInt:
        i = C().concretize_int(_index_range(i, len(l)))
    return l.pop(cint(i))


def list_sort(l, cmp=None, key=None, reverse=False):
    l[:] = sort_list(l, cmp, key, reverse)


def list_extend(l, x):
    l.extend(list(iter(x)))


LIST_M = {
    'append': list.append, 'extend': list_extend,
    'insert': lambda l, i, v: l.insert(cint(i), v),
    'pop': list_pop, 'remove': list_remove, 'index': list_index,
    'count': list_count, 'reverse': list.reverse, 'sort': list_sort,
    '__iter__': iter, '__len__': len, '__contains__': lambda l, k: in_(k, l),
    '__getitem__': getitem, '__setitem__': setitem,
}

TUPLE_M = {'index': list_index, 'count': list_count, '__iter__': iter,
           '__len__': len, '__getitem__': getitem,
           '__contains__': lambda l, k: in_(k, l)}


# dict methods

def d_get(d, k, default=None):
    f, v = d.lookup(k, eqv)
    return v if f else default


def d_pop(d, k, *default):
    v = d.delete(k, eqv)
    if v is NOTFOUND:
        if default:
            return default[0]
        raise KeyError(k)
    return v


def d_setdefault(d, k, v=None):
    f, w = d.lookup(k, eqv)
    if f:
        return w
    d.set(k, v, eqv)
    return v


def d_popitem(d):
    es = d.entries()
    if not es:
        raise KeyError('popitem(): dictionary is empty')
    k, v = es[-1]
    d.delete(k, eqv)
    return (k, v)


def d_copy(d):
    r = PDict()
    for k, v in d.entries():
        r.set(k, v, eqv)
    return r


def d_clear(d):
    d.d = {}
    d.sym = None


DICT_M = {
    'get': d_get, 'has_key': lambda d, k: d.member(k, eqv),
    'keys': lambda d: [e[0] for e in d.entries()],
    'values': lambda d: [e[1] for e in d.entries()],
    'items': lambda d: [(e[0], e[1]) for e in d.entries()],
    'iterkeys': lambda d: _b.iter([e[0] for e in d.entries()]),
    'itervalues': lambda d: _b.iter([e[1] for e in d.entries()]),
    'iteritems': lambda d: _b.iter([(e[0], e[1]) for e in d.entries()]),
    'pop': d_pop, 'setdefault': d_setdefault, 'popitem': d_popitem,
    'copy': d_copy, 'clear': d_clear,
    'update': lambda d, *a, **k: dict_update(d, a, k),
    '__contains__': lambda d, k: d.member(k, eqv), '__len__': len,
    '__iter__': iter, '__getitem__': getitem, '__setitem__': setitem,
    '__delitem__': delitem,
}


# set methods

def s_add(s, v):
    s.d.set(v, True, eqv)


def s_discard(s, v):
    s.d.delete(v, eqv)


def s_remove(s, v):
    if s.d.delete(v, eqv) is NOTFOUND:
        raise KeyError(v)


SET_M = {
    'add': s_add, 'discard': s_discard, 'remove': s_remove,
    'update': lambda s, x: [s_add(s, v) for v in iter(x)] and None,
    'union': lambda s, o: or__(s, set_(o)),
    'intersection': lambda s, o: and__(s, set_(o)),
    'difference': lambda s, o: sub(s, set_(o)),
    'issubset': lambda s, o: land([in_(k, o) for k in s]),
    'issuperset': lambda s, o: land([in_(k, s) for k in iter(o)]),
    'copy': lambda s: set_(s), '__contains__': lambda s, k: in_(k, s),
}


# array methods

def a_pop(a, i=-1):
    if not a.a:
        raise IndexError('pop from empty array')
    return list_pop(a.a, i)


def a_extend(a, x):
    if type(x) is PArray:
        a.a.extend(list(x.a))
        return
    for v in iter(x):
        arr_append(a, v)


def a_fromlist(a, l):
    tmp = PArray(a.typecode)
    for v in l:
        arr_append(tmp, v)
    a.a.extend(tmp.a)


def a_insert(a, i, v):
    arr_check(a, v)
    a.a.insert(cint(i), toint(v))


ARRAY_M = {
    'append': arr_append, 'extend': a_extend, 'fromlist': a_fromlist,
    'fromstring': arr_fromstring, 'tostring': arr_tostring,
    'tolist': lambda a: list(a.a), 'pop': a_pop, 'insert': a_insert,
    'remove': lambda a, v: list_remove(a.a, v),
    'index': lambda a, v: list_index(a.a, v),
    'count': lambda a, v: list_count(a.a, v),
    'reverse': lambda a: a.a.reverse(), '__iter__': iter, '__len__': len,
    '__getitem__': getitem,
    'tofile': lambda a, f: f.write(arr_tostring(a)),
    'fromfile': lambda a, f, n: arr_fromstring(a, f.read(n)),
}


def array_attr(a, n):
    if n == 'typecode':
        return S(a.typecode)
    if n == 'itemsize':
        return {'B': 1, 'b': 1, 'H': 2, 'I': 4, 'L': 4}[a.typecode]
    return table_attrs(ARRAY_M)(a, n)


def ba_append(a, v):
    ba_insert(a, len(a.a), v)


def ba_insert(a, i, v):
    # a refused value leaves its place behind (Jython)
    a.a.insert(cint(i), 0)
    i = cint(i)
    n = len(a.a) - 1
    i = max(0, i + n) if i < 0 else min(i, n)
    a.a[i] = byte_value(v)


def ba_remove(a, v):
    v = byte_value(v)
    for i, x in enumerate(a.a):
        if truth(eqv(x, v)):
            del a.a[i]
            return
    raise ValueError('value not found in bytearray')


def ba_pop(a, i=-1):
    if not a.a:
        raise IndexError('pop from empty list')
    return list_pop(a.a, i)


def ba_extend(a, x):
    a.a.extend(byte_list(x))


BYTES_M = {
    'append': ba_append, 'insert': ba_insert, 'remove': ba_remove,
    'pop': ba_pop, 'extend': ba_extend,
    'reverse': lambda a: a.a.reverse(), '__iter__': iter, '__len__': len,
    '__getitem__': getitem, '__contains__': lambda a, k: in_(k, a),
}


def bytearray_attr(a, n):
    m = BYTES_M.get(n)
    if m is not None:
        return functools.partial(m, a)
    m = STR_M.get(n)
    if m is None or n in ('encode', 'format'):
        no_attr(a, n)

    def back(r):
        t = type(r)
        if t is PStr:
            return PBytes(list(r.c))
        if t is list or t is tuple:
            return t([back(x) for x in r])
        return r

    def call(*args, **kw):
        if n in ('index', 'find', 'rfind', 'rindex', 'count') and \
                type(args[0]) in INTS:
            raise TypeError("Type int doesn't support the buffer API")
        if n == 'join':
            args = ([unbytes(x) for x in iter(args[0])],)
        else:
            args = [unbytes(x) for x in args]
        r = m(a.str(), *args, **kw)
        return r if n == 'decode' else back(r)
    return call


def num_attr(o, n):
    if n == 'bit_length':
        def bl():
            x = toint(o)
            if type(x) is int:
                return x.bit_length()
            v = 0
            lo, hi = rng(x)
            if lo < 0:
                raise Unsupported('bit_length of a negative')
            r = hi.bit_length()
            for k in range(hi.bit_length() - 1, lo.bit_length() - 1, -1):
                r = i_ite(as_z3(i_cmp('<', x, 1 << k)), k, r)
            return r
        return bl
    if n == 'real' or n == 'numerator':
        return o
    if n == 'imag':
        return 0
    if n == '__index__' or n == '__int__':
        return lambda: toint(o)
    no_attr(o, n)


def float_attr(o, n):
    if n == 'is_integer':
        num, den = as_rat(o)
        return lambda: eqv(mod(num, den), 0)
    no_attr(o, n)


def none_attr(o, n):
    no_attr(o, n)


STR_M = {}        # filled in by strs.py

ATTRS = {
    list: table_attrs(LIST_M), tuple: table_attrs(TUPLE_M),
    PDict: table_attrs(DICT_M), PSet: table_attrs(SET_M),
    PArray: array_attr, PBytes: bytearray_attr, PStr: table_attrs(STR_M), PUni: table_attrs(STR_M),
    int: num_attr, bool: num_attr, SymInt: num_attr, SymBool: num_attr,
    float: float_attr, SymRat: float_attr, type(None): none_attr,
}

OPS = {'add': add, 'sub': sub, 'mul': mul, 'div': div, 'truediv': truediv,
       'floordiv': floordiv,
       'mod': mod, 'pow_': pow_, 'shl': shl, 'shr': shr, 'or__': or__,
       'xor': xor, 'and__': and__, 'eq': eq, 'ne': ne, 'lt': lt, 'le': le,
       'gt': gt, 'ge': ge, 'is_': is_, 'isnot': isnot, 'in_': in_,
       'notin': notin}


# --------------------------------------------------------------------------
# concrete canonical values, for replay and witness comparison


def canon_concrete(ctx, model, v):
    t = type(v)
    if t is bool:
        return ['b', v]
    if t is SymBool:
        return ['b', ctx.ev(model, v)]
    if t is int:
        return ['i', str(v)]
    if t is SymInt:
        return ['i', str(ctx.ev(model, v))]
    if t is PStr or t is PUni:
        return ['s' if t is PStr else 'u', [ctx.ev(model, x) for x in v.c]]
    if v is None:
        return ['n']
    if t is list or t is tuple:
        return ['l' if t is list else 't',
                [canon_concrete(ctx, model, x) for x in v]]
    if t is PArray or t is PBytes:
        return ['a' if t is PArray else 'B',
                [ctx.ev(model, x) for x in v.a]]
    if t is PDict:
        es = [[canon_concrete(ctx, model, k), canon_concrete(ctx, model, w)]
              for k, w in v.entries()]
        es.sort(key=lambda e: repr(e[0]))
        return ['d', es]
    if t is float:
        return ['f', repr(v)]
    if t is SymRat:
        n = ctx.ev(model, v.num)
        return ['f', repr(n / v.den)]
    h = getattr(t, '__canonc__', None)
    if h is not None:
        return h(v, ctx, model)
    return ['o', t.__name__]
