"""Symbolic values and the path explorer.

Python 2 integers are mathematical integers.  A SymInt carries a z3 bit-vector
together with an interval [lo, hi] that is guaranteed to contain its value; the
width of the vector is always wide enough for the interval, so no operation can
wrap and the encoding is exact.
"""
import time
import z3

Z = z3


def _quiet():
    # these cannot fail on well-formed arguments; the error poll after each of
    # them costs more than the call itself
    import z3.z3core as zc
    for n in ('Z3_inc_ref', 'Z3_dec_ref', 'Z3_get_sort', 'Z3_is_eq_ast',
              'Z3_is_eq_sort', 'Z3_get_bv_sort_size', 'Z3_get_ast_kind',
              'Z3_get_sort_kind', 'Z3_get_ast_id'):
        f = getattr(zc, n, None)
        for d in (f.__defaults__ or ()) if f else ():
            if hasattr(d, 'Check'):
                d.Check = _nocheck


def _nocheck(ctx):
    pass


_quiet()


class EngineSignal(BaseException):
    """Control flow of the engine; never visible to the program under test."""


class Infeasible(EngineSignal):
    pass


class Unsupported(EngineSignal):
    pass


class StepLimit(EngineSignal):
    pass


class PathStop(EngineSignal):
    """The path ended at a violated check."""


class OutOfTime(EngineSignal):
    pass


# --------------------------------------------------------------------------
# integers


def width_for(lo, hi):
    if lo >= 0:
        return max(1, hi.bit_length())
    a = (-lo - 1).bit_length()
    b = hi.bit_length() if hi > 0 else 0
    return max(a, b) + 1


class SymBool(object):
    __slots__ = ('e',)

    def __init__(self, e):
        self.e = e

    def __bool__(self):
        raise Unsupported('native truth test of a symbolic bool')

    def __hash__(self):
        raise Unsupported('hash of a symbolic bool')

    def __eq__(self, other):
        raise Unsupported('native eq of a symbolic bool')

    def __repr__(self):
        return '<SymBool %s>' % self.e


class SymInt(object):
    __slots__ = ('e', 'lo', 'hi', 'prov', 'lin')

    def __init__(self, e, lo, hi, prov=None):
        self.e = e
        self.lo = lo
        self.hi = hi
        self.prov = prov
        self.lin = None

    def __bool__(self):
        raise Unsupported('native truth test of a symbolic int')

    def __hash__(self):
        raise Unsupported('hash of a symbolic int')

    def __index__(self):
        raise Unsupported('native index use of a symbolic int')

    def __eq__(self, other):
        raise Unsupported('native eq of a symbolic int')

    def __repr__(self):
        return '<SymInt [%d,%d] %s>' % (self.lo, self.hi, self.e)


class SymRat(object):
    """A Python float known exactly as the rational num/den (den > 0)."""
    __slots__ = ('num', 'den')

    def __init__(self, num, den):
        self.num = num
        self.den = den

    def __bool__(self):
        raise Unsupported('native truth test of a symbolic float')

    def __hash__(self):
        raise Unsupported('hash of a symbolic float')

    def __eq__(self, other):
        raise Unsupported('native eq of a symbolic float')


def is_sym(x):
    t = type(x)
    return t is SymInt or t is SymBool or t is SymRat


def bv(x, w):
    """Value x (int or SymInt) as a bit-vector of width w (mod 2**w)."""
    if type(x) is SymInt:
        e = x.e
        s = e.size()
        if s == w:
            return e
        if s > w:
            return z3.Extract(w - 1, 0, e)
        if x.lo < 0:
            return z3.SignExt(w - s, e)
        return z3.ZeroExt(w - s, e)
    x = int(x)
    if -70000 < x < 70000:
        k = (x, w)
        e = _BVV.get(k)
        if e is None:
            e = _BVV[k] = z3.BitVecVal(x, w)
        return e
    return z3.BitVecVal(x, w)


_BVV = {}


def mk(e, lo, hi):
    if lo == hi:
        return lo
    w = width_for(lo, hi)
    s = e.size()
    if s > w:
        e = z3.Extract(w - 1, 0, e)
    elif s < w:
        raise AssertionError('mk: vector too narrow')
    if s > w or not z3.is_const(e):
        pass
    return SymInt(e, lo, hi)


def toint(x):
    """bool/SymBool -> int/SymInt."""
    t = type(x)
    if t is bool:
        return int(x)
    if t is SymBool:
        return SymInt(z3.If(x.e, z3.BitVecVal(1, 1), z3.BitVecVal(0, 1)), 0, 1)
    return x


def const_val(e, lo=0):
    if z3.is_bv_value(e):
        v = e.as_long()
        if lo < 0 and v >= (1 << (e.size() - 1)):
            v -= 1 << e.size()
        return v
    return None


def rng(x):
    if type(x) is SymInt:
        return x.lo, x.hi
    return x, x


def i_add(a, b):
    al, ah = rng(a)
    bl, bh = rng(b)
    lo, hi = al + bl, ah + bh
    if type(b) is int and b == 0:
        return a
    if type(a) is int and a == 0:
        return b
    w = width_for(lo, hi)
    r = mk(bv(a, w) + bv(b, w), lo, hi)
    if type(r) is SymInt:
        r.lin = (1, a, 1, b)
    return r


def i_sub(a, b):
    al, ah = rng(a)
    bl, bh = rng(b)
    lo, hi = al - bh, ah - bl
    if type(b) is int and b == 0:
        return a
    w = width_for(lo, hi)
    r = mk(bv(a, w) - bv(b, w), lo, hi)
    if type(r) is SymInt:
        r.lin = (1, a, -1, b)
    return r


def i_neg(a):
    return i_sub(0, a)


def i_mul(a, b):
    if type(a) is int:
        a, b = b, a
    al, ah = rng(a)
    if type(b) is int:
        if b == 0:
            return 0
        if b == 1:
            return a
        if b > 0 and (b & (b - 1)) == 0:
            return i_shl(a, b.bit_length() - 1)
    bl, bh = rng(b)
    c = (al * bl, al * bh, ah * bl, ah * bh)
    lo, hi = min(c), max(c)
    w = width_for(lo, hi)
    r = mk(bv(a, w) * bv(b, w), lo, hi)
    if type(b) is int and type(r) is SymInt:
        r.lin = (b, a, 0, 0)
    return r


def flatten(x, memo):
    """x as ({key: (atom, coefficient)}, constant), or None when big."""
    if type(x) is int:
        return {}, x
    k = id(x)
    r = memo.get(k)
    if r is not None:
        return r
    if x.lin is None:
        e = x.e
        while z3.is_app_of(e, z3.Z3_OP_ZERO_EXT):
            e = e.arg(0)
        e = z3.simplify(e)
        while z3.is_app_of(e, z3.Z3_OP_CONCAT) and \
                z3.is_bv_value(e.arg(0)) and e.arg(0).as_long() == 0:
            rest = [e.arg(i) for i in range(1, e.num_args())]
            e = rest[0] if len(rest) == 1 else z3.simplify(z3.Concat(*rest))
        r = ({(e.get_id(), x.lo < 0): (x, 1, e)}, 0)
    else:
        ka, a, kb, b = x.lin
        fa = flatten(a, memo)
        if fa is None:
            return None
        d = dict((q, (t, c * ka, e)) for q, (t, c, e) in fa[0].items())
        k0 = fa[1] * ka
        if kb:
            fb = flatten(b, memo)
            if fb is None:
                return None
            k0 += fb[1] * kb
            for q, (t, c, e) in fb[0].items():
                o = d.get(q)
                c = c * kb + (o[1] if o else 0)
                if c:
                    d[q] = (t, c, e)
                elif o:
                    del d[q]
        if len(d) > 40:
            return None
        r = (d, k0)
    memo[k] = r
    return r


def cancel(a, b):
    """(a', b') with the same difference and no common terms, or None."""
    memo = {}
    fa = flatten(a, memo)
    fb = flatten(b, memo)
    if fa is None or fb is None:
        return None
    common = [q for q in fa[0] if q in fb[0]]
    if not common:
        return None
    pos, neg = [], []
    for q in list(fa[0]) + [q for q in fb[0] if q not in fa[0]]:
        t, c, _ = fa[0].get(q) or (fb[0][q][0], 0, None)
        o = fb[0].get(q)
        if o:
            c -= o[1]
        if c > 0:
            pos.append((c, t))
        elif c < 0:
            neg.append((-c, t))
    k = fa[1] - fb[1]
    x, y = (k, 0) if k > 0 else (0, -k)
    for c, t in pos:
        x = i_add(x, i_mul(c, t))
    for c, t in neg:
        y = i_add(y, i_mul(c, t))
    return x, y


def i_shl(a, k):
    if k == 0:
        return a
    al, ah = rng(a)
    lo, hi = al << k, ah << k
    if type(a) is SymInt and lo >= 0:
        e = z3.Concat(a.e, z3.BitVecVal(0, k))
        w = width_for(lo, hi)
        if e.size() < w:
            e = z3.ZeroExt(w - e.size(), e)
        r = mk(e, lo, hi)
    else:
        w = width_for(lo, hi)
        r = mk(bv(a, w) << k, lo, hi)
    if type(r) is SymInt:
        r.lin = (1 << k, a, 0, 0)
    return r


def i_shr(a, k):
    if k == 0:
        return a
    al, ah = rng(a)
    lo, hi = al >> k, ah >> k
    if lo == hi:
        return lo
    s = a.e.size()
    if al >= 0:
        e = z3.Extract(s - 1, k, a.e)
    else:
        e = a.e >> k
    return mk(e, lo, hi)


def i_and(a, b):
    if type(a) is int:
        a, b = b, a
    al, ah = rng(a)
    bl, bh = rng(b)
    if al >= 0 and bl >= 0:
        lo, hi = 0, min(ah, bh)
        if type(b) is int:
            if b == 0:
                return 0
            # low mask covering everything
            if (b & (b + 1)) == 0 and ah <= b:
                return a
        w = width_for(lo, hi)
        return mk(bv(a, w) & bv(b, w), lo, hi)
    if bl >= 0:
        lo, hi = 0, bh
        if hi == 0:
            return 0
        w = width_for(lo, hi)
        return mk(bv(a, w) & bv(b, w), lo, hi)
    if al >= 0:
        return i_and(b, a)
    w = max(width_for(al, ah), width_for(bl, bh))
    lo, hi = -(1 << (w - 1)), (1 << (w - 1)) - 1
    return mk(bv(a, w) & bv(b, w), lo, hi)


def i_or(a, b):
    al, ah = rng(a)
    bl, bh = rng(b)
    if type(b) is int and b == 0:
        return a
    if type(a) is int and a == 0:
        return b
    if al >= 0 and bl >= 0:
        w = max(width_for(al, ah), width_for(bl, bh))
        lo, hi = max(al, bl), (1 << w) - 1
        # a constant with bits disjoint from the other's range
        hi = min(hi, ah + bh)
        if lo == hi:
            return lo
        return mk(bv(a, w) | bv(b, w), lo, hi)
    w = max(width_for(al, ah) + (al >= 0), width_for(bl, bh) + (bl >= 0))
    lo, hi = -(1 << (w - 1)), (1 << (w - 1)) - 1
    return mk(bv(a, w) | bv(b, w), lo, hi)


def i_xor(a, b):
    al, ah = rng(a)
    bl, bh = rng(b)
    if al >= 0 and bl >= 0:
        w = max(width_for(al, ah), width_for(bl, bh))
        return mk(bv(a, w) ^ bv(b, w), 0, (1 << w) - 1)
    w = max(width_for(al, ah) + (al >= 0), width_for(bl, bh) + (bl >= 0))
    lo, hi = -(1 << (w - 1)), (1 << (w - 1)) - 1
    return mk(bv(a, w) ^ bv(b, w), lo, hi)


def i_floordiv(a, b):
    """b > 0 (int), or both non-negative with b symbolic and non-zero."""
    al, ah = rng(a)
    if type(b) is int:
        if b < 0:
            return i_floordiv(i_neg(a), -b)
        if (b & (b - 1)) == 0:
            return i_shr(a, b.bit_length() - 1)
        lo, hi = al // b, ah // b
        if lo == hi:
            return lo
        m = 0
        if al < 0:
            m = -(al // b)
            a = i_add(a, m * b)
            al, ah = rng(a)
        w = max(width_for(al, ah), b.bit_length())
        q = mk(z3.UDiv(bv(a, w), bv(b, w)), max(0, al // b), ah // b)
        return i_sub(q, m) if m else q
    bl, bh = rng(b)
    if al < 0 or bl < 0:
        raise Unsupported('signed division by a symbolic value')
    w = max(width_for(al, ah), width_for(bl, bh))
    return mk(z3.UDiv(bv(a, w), bv(b, w)), 0, ah)


def i_mod(a, b):
    al, ah = rng(a)
    if type(b) is int:
        if b < 0:
            return i_neg(i_mod(i_neg(a), -b))
        if al >= 0 and ah < b:
            return a
        if (b & (b - 1)) == 0:
            return i_and(a, b - 1)
        if al // b == ah // b:
            return i_sub(a, (al // b) * b)
        if al < 0:
            a = i_add(a, -(al // b) * b)
            al, ah = rng(a)
        w = max(width_for(al, ah), b.bit_length())
        return mk(z3.URem(bv(a, w), bv(b, w)), 0, min(ah, b - 1))
    bl, bh = rng(b)
    if al < 0 or bl < 0:
        raise Unsupported('signed modulo by a symbolic value')
    w = max(width_for(al, ah), width_for(bl, bh))
    return mk(z3.URem(bv(a, w), bv(b, w)), 0, min(ah, bh - 1))


def i_cmp(op, a, b):
    al, ah = rng(a)
    bl, bh = rng(b)
    if op == '==':
        if ah < bl or bh < al:
            return False
        if al == ah == bl == bh:
            return True
    elif op == '!=':
        return not_(i_cmp('==', a, b))
    elif op == '<':
        if ah < bl:
            return True
        if al >= bh:
            return False
    elif op == '<=':
        if ah <= bl:
            return True
        if al > bh:
            return False
    elif op == '>':
        return i_cmp('<', b, a)
    elif op == '>=':
        return i_cmp('<=', b, a)
    if (type(a) is SymInt and a.lin) and type(b) is SymInt or \
            type(b) is SymInt and b.lin and type(a) is SymInt:
        r = cancel(a, b)
        if r is not None:
            a, b = r
            if type(a) is int and type(b) is int:
                return a == b if op == '==' else \
                    a < b if op == '<' else a <= b
            al, ah = rng(a)
            bl, bh = rng(b)
            if ah < bl:
                return op != '=='
            if al > bh or op == '<' and al == bh:
                return False
    lo, hi = min(al, bl), max(ah, bh)
    w = width_for(lo, hi)
    x, y = bv(a, w), bv(b, w)
    if op == '==':
        if x.eq(y):
            return True
        return SymBool(x == y)
    if lo < 0:
        return SymBool(x < y) if op == '<' else SymBool(x <= y)
    return SymBool(z3.ULT(x, y)) if op == '<' else SymBool(z3.ULE(x, y))


def i_ite(c, a, b):
    """c: z3 Bool; a, b: int/SymInt."""
    if type(a) is int and type(b) is int and a == b:
        return a
    al, ah = rng(a)
    bl, bh = rng(b)
    lo, hi = min(al, bl), max(ah, bh)
    w = width_for(lo, hi)
    x, y = bv(a, w), bv(b, w)
    if x.eq(y):
        return a
    return SymInt(z3.If(c, x, y), lo, hi)


def i_table(key, pairs):
    """ITE chain: value of the first pair whose key equals `key`; the last
    pair is the default (the caller has established that one matches)."""
    lo = min(rng(v)[0] for _, v in pairs)
    hi = max(rng(v)[1] for _, v in pairs)
    if lo == hi:
        return lo
    w = width_for(lo, hi)
    if all(type(k) is int and type(v) is int for k, v in pairs):
        ck = (key.e.get_id(), key.lo, tuple(pairs))
        r = _TAB.get(ck)
        if r is not None:
            return r[0]
        r = _concrete_table(key, pairs, lo, hi)
        if len(_TAB) > 20000:
            _TAB.clear()
        _TAB[ck] = (r, key)
        return r
    # group equal concrete values
    groups = {}
    order = []
    for k, v in pairs:
        g = ('c', v) if type(v) is int else ('s', id(v))
        if g not in groups:
            groups[g] = (v, [])
            order.append(g)
        groups[g][1].append(k)
    # put the biggest group last as default
    order.sort(key=lambda g: len(groups[g][1]))
    e = bv(groups[order[-1]][0], w)
    for g in reversed(order[:-1]):
        v, ks = groups[g]
        conds = [as_z3(i_cmp('==', key, k)) for k in ks]
        e = z3.If(conds[0] if len(conds) == 1 else z3.Or(*conds), bv(v, w), e)
    return SymInt(e, lo, hi)


_TAB = {}


def _concrete_table(key, pairs, lo, hi):
    """Segments of constant value or constant offset, chosen by binary
    comparison."""
    d = {}
    for k, v in pairs:
        d.setdefault(k, v)
    ks = sorted(d)
    segs = []           # (first key, last key, 'c'/'o', value)
    for k in ks:
        v = d[k]
        if segs:
            f, l, kind, x = segs[-1]
            if kind is None:
                v0 = d[f]
                if v == v0:
                    segs[-1] = (f, k, 'c', v)
                    continue
                if v - v0 == k - f:
                    segs[-1] = (f, k, 'o', v - k)
                    continue
            elif kind == 'c' and v == x or kind == 'o' and v - k == x:
                segs[-1] = (f, k, kind, x)
                continue
        segs.append((k, k, None, v))
    w = max(width_for(lo, hi), width_for(key.lo, key.hi)) + 1

    kb = bv(key, w)

    def build(a, b):
        if b - a == 1:
            f, l, kind, x = segs[a]
            if kind == 'o':
                return kb + bv(x, w)
            return bv(x if kind else d[f], w)
        m = (a + b) // 2
        c = i_cmp('<', key, segs[m][0])
        if c is True:
            return build(a, m)
        if c is False:
            return build(m, b)
        return z3.If(c.e, build(a, m), build(m, b))
    return mk(build(0, len(segs)), lo, hi)


# --------------------------------------------------------------------------
# booleans


def as_z3(b):
    if type(b) is SymBool:
        return b.e
    return z3.BoolVal(bool(b))


def not_(b):
    if type(b) is SymBool:
        return SymBool(z3.Not(b.e))
    return not b


def and_(bs):
    out = []
    for b in bs:
        if type(b) is SymBool:
            out.append(b.e)
        elif not b:
            return False
    if not out:
        return True
    if len(out) == 1:
        return SymBool(out[0])
    return SymBool(z3.And(*out))


def or_(bs):
    out = []
    for b in bs:
        if type(b) is SymBool:
            out.append(b.e)
        elif b:
            return True
    if not out:
        return False
    if len(out) == 1:
        return SymBool(out[0])
    return SymBool(z3.Or(*out))


# --------------------------------------------------------------------------
# path exploration


class Violation(object):
    def __init__(self, label, inputs, detail=''):
        self.label = label
        self.inputs = inputs
        self.detail = detail


VARS = {}           # ast id -> variable
_ORDER = {}         # ast id -> order of creation
_ROOTS = []
_VARSET = {}        # ast id -> frozenset of variable ids
EMPTY = frozenset()


_C = z3.main_ctx().ref()


def _raw(name):
    # the library function itself, without the Python-side error check
    return getattr(z3.z3core, name).__defaults__[-1].f


_num = _raw('Z3_get_app_num_args')
_arg = _raw('Z3_get_app_arg')
_id = _raw('Z3_get_ast_id')
_kind = _raw('Z3_get_ast_kind')


def vars_of(e):
    """Ids of the variables of e (each registered in VARS when made)."""
    i = e.get_id()
    r = _VARSET.get(i)
    if r is not None:
        return r
    _ROOTS.append(e)            # keeps every sub-term, hence its id, alive
    stack = [e.ast]
    while stack:
        x = stack[-1]
        xi = _id(_C, x)
        if xi in _VARSET:
            stack.pop()
            continue
        if _kind(_C, x) != 1:   # not an application: a numeral
            _VARSET[xi] = EMPTY
            stack.pop()
            continue
        n = _num(_C, x)
        if n == 0:
            _VARSET[xi] = frozenset([xi]) if xi in VARS else EMPTY
            stack.pop()
            continue
        todo = []
        r = EMPTY
        for k in range(n):
            c = _arg(_C, x, k)
            s = _VARSET.get(_id(_C, c))
            if s is None:
                todo.append(c)
            elif s:
                r = r | s if r else s
        if todo:
            stack.extend(todo)
            continue
        _VARSET[xi] = r
        stack.pop()
    return _VARSET[i]


_CANON = {}


def canon_var(k, w):
    r = _CANON.get((k, w))
    if r is None:
        r = _CANON[(k, w)] = z3.BitVec('!%d_%d' % (w, k), w)
    return r


class Ctx(object):
    """One exploration job."""

    def __init__(self, seed=1, max_paths=100000, max_steps=3000000,
                 deadline=None, query_ms=120000, max_viol=3):
        self.cons = []
        self.byvar = {}
        self.marks = []
        self.cache = {}
        self.ccache = {}
        self.sconst = {}
        self.nhit = 0
        self.concs = {}
        self.seed = seed
        self.max_paths = max_paths
        self.max_steps = max_steps
        self.deadline = deadline
        self.query_ms = query_ms
        self.max_viol = max_viol
        self.nq = 0
        self.tq = 0.0
        self.nunknown = 0
        self.paths = 0
        self.decisions_total = 0
        self.infeasible = 0
        self.discharged = 0
        self.trivial = 0
        self.labels = {}
        self.violations = []
        self.viol_labels = {}
        self.witnesses = []
        self.incomplete = []
        self.functions = set()
        self.steplimit = []
        self.pathconds = 0
        self.unsupported_models = []
        self.max_witness = 1000000
        self.path_id = 0

    # -- exploring ---------------------------------------------------------
    def explore(self, body):
        work = [([], None)]
        self.cur = []          # decisions of the previous path (choice list)
        self.depth = 0         # number of pushed scopes
        self.pushed_at = []    # decision index of each pushed scope
        while work:
            if self.paths >= self.max_paths:
                self.incomplete.append('path budget %d' % self.max_paths)
                break
            if self.deadline and time.time() > self.deadline:
                self.incomplete.append('time budget')
                break
            prefix, model = work.pop()
            # pop scopes belonging to decisions >= len(prefix)-1
            k = len(prefix) - 1
            while self.pushed_at and self.pushed_at[-1] >= k:
                self.pop()
            self.prefix = prefix
            self.replay_until = k          # asserts are skipped before this
            self.pos = 0
            self.decs = []
            self.alts = []
            self.decided = {}
            self.keep = []
            self.inputs = []               # (name, kind, value)
            self.varcount = {}
            self.steps = 0
            self.observed = []
            self.path_note = None
            self.path_id += 1
            outcome = None
            try:
                outcome = body(self)
                self.paths += 1
            except Infeasible:
                self.infeasible += 1
                outcome = None
            except OutOfTime:
                self.incomplete.append('time budget')
                break
            except PathStop:
                self.paths += 1
                outcome = None
            except StepLimit:
                self.paths += 1
                m = self.get_model()
                self.steplimit.append(self.concrete_inputs(m))
                outcome = None
                self.incomplete.append('step limit')
            except Unsupported as e:
                self.paths += 1
                self.incomplete.append('unsupported: %s' % e)
                m = self.get_model()
                if m is not None:
                    self.unsupported_models.append(self.concrete_inputs(m))
                outcome = None
            if outcome is not None and self.want_witness():
                m = self.get_model()
                if m is not None:
                    self.witnesses.append(
                        (self.concrete_inputs(m), self.concrete_observed(m),
                         outcome))
            self.decisions_total += len(self.decs)
            for alt in self.alts:
                work.append(alt)
            if len(self.violations) >= self.max_viol:
                if work:
                    self.incomplete.append('stopped at %d violations'
                                           % self.max_viol)
                break
        # leave the solver clean
        while self.pushed_at:
            self.pop()

    def want_witness(self):
        return len(self.witnesses) < self.max_witness

    # -- solver ------------------------------------------------------------
    # A query only carries the path constraints that share variables with it,
    # directly or through others; the rest is satisfiable on its own because
    # the path is.  Answers are remembered across paths.
    def push(self, pos):
        self.pushed_at.append(pos)
        self.marks.append(len(self.cons))

    def pop(self):
        self.pushed_at.pop()
        n = self.marks.pop()
        while len(self.cons) > n:
            i = len(self.cons) - 1
            e, vs = self.cons.pop()
            for v in vs:
                self.byvar[v].pop()

    def assert_(self, e):
        vs = vars_of(e)
        i = len(self.cons)
        self.cons.append((e, vs))
        for v in vs:
            self.byvar.setdefault(v, []).append(i)

    def slice(self, vs):
        seen = set(vs)
        todo = list(vs)
        used = set()
        while todo:
            v = todo.pop()
            for i in self.byvar.get(v, ()):
                if i not in used:
                    used.add(i)
                    for w in self.cons[i][1]:
                        if w not in seen:
                            seen.add(w)
                            todo.append(w)
        return [self.cons[i][0] for i in sorted(used)]

    def query(self, *es):
        vs = set()
        for e in es:
            vs |= vars_of(e)
        cs = self.slice(vs)
        return self.solve(cs + list(es))

    def solve(self, es):
        key = frozenset(e.get_id() for e in es)
        r = self.cache.get(key)
        if r is not None:
            self.nhit += 1
            self._last_model = r[1]
            return r[0]
        vs = set()
        for e in es:
            vs |= vars_of(e)
        vs = sorted(vs, key=_ORDER.__getitem__)
        sub = [(VARS[v], canon_var(k, VARS[v].size()))
               for k, v in enumerate(vs)]
        ces = [z3.substitute(e, *sub) for e in es] if sub else es
        ckey = frozenset(e.get_id() for e in ces)
        r = self.ccache.get(ckey)
        if r is None:
            r = self._solve(ces, sub)
            if r[0] != z3.unknown:
                self.ccache[ckey] = r + (ces,)
        else:
            self.nhit += 1
        m = None
        if r[1] is not None:
            m = dict(zip(vs, r[1]))
        if r[0] != z3.unknown:
            self.cache[key] = (r[0], m, es)
        self._last_model = m
        return r[0]

    def _solve(self, es, sub):
        t = time.time()
        self.nq += 1
        if self.deadline and t > self.deadline + 5:
            raise OutOfTime()
        s = z3.SolverFor('QF_BV')
        ms = self.query_ms
        if self.deadline:
            ms = int(max(1000, min(ms, (self.deadline + 5 - t) * 1000)))
        s.set('timeout', ms)
        s.set('random_seed', self.seed)
        s.add(*es)
        r = s.check()
        m = None
        if r == z3.sat:
            zm = s.model()
            m = [zm.eval(c, model_completion=True).as_long()
                 for v, c in sub]
        self.tq += time.time() - t
        if r == z3.unknown:
            self.nunknown += 1
        return r, m

    def full_model(self, extra=(), part=None):
        """A z3 model of the whole path (and of `extra`, whose slice has the
        solution `part`)."""
        vals = dict(part or {})
        for n, x in self.inputs:
            if type(x) is SymInt:
                v = x.e.get_id()
                if v in vals:
                    continue
                cs = self.slice([v])
                if not cs:
                    vals[v] = None
                    continue
                r = self.solve(cs)
                if r != z3.sat:
                    return None
                vals.update(self._last_model)
        s = z3.SimpleSolver()
        for v, val in vals.items():
            if val is not None:
                s.add(VARS[v] == val)
        if s.check() != z3.sat:
            return None
        return s.model()

    def get_model(self):
        return self.full_model()

    def step(self):
        self.steps += 1
        if self.steps > self.max_steps:
            raise StepLimit()
        if not (self.steps & 0xfff) and self.deadline and \
                time.time() > self.deadline:
            raise OutOfTime()

    # -- decisions ---------------------------------------------------------
    def truth(self, b):
        if type(b) is not SymBool:
            return b
        e = b.e
        k = self.const_bool(e)
        if k is not None:
            return k
        i = e.get_id()
        if i in self.decided:
            return self.decided[i]
        ne = z3.Not(e)
        r = self._decide([e, ne]) == 0
        self.keep.append(e)
        self.decided[i] = r
        if z3.is_not(e):
            ne = e.arg(0)
        self.keep.append(ne)
        self.decided[ne.get_id()] = not r
        return r

    def const_bool(self, e):
        """True/False when e simplifies to it.  Remembered, so that every
        path of the job sees the same answer."""
        i = e.get_id()
        r = self.sconst.get(i)
        if r is None:
            k = z3.simplify(e)
            k = True if z3.is_true(k) else False if z3.is_false(k) else None
            r = self.sconst[i] = (k, e)
        return r[0]

    def choose(self, conds):
        """n-way fork; conds are z3 Bools, exhaustive on this path."""
        return self._decide(conds)

    def _decide(self, conds):
        pos = self.pos
        if pos < len(self.prefix):
            c = self.prefix[pos]
            self.pos += 1
            self.decs.append(c)
            if c >= 0:
                if pos == self.replay_until:
                    # the flipped decision: new scope
                    self.push(pos)
                    self.assert_(conds[c])
                return c
            return -c - 1
        # new decision
        feas = []
        n = len(conds)
        for i in range(n):
            if n == 2 and i == 1 and not feas:
                # exhaustive: the other side must hold
                feas.append(i)
                continue
            if self.query(conds[i]) != z3.unsat:
                feas.append(i)
        self.pos += 1
        if not feas:
            raise Infeasible()
        if len(feas) == 1:
            i = feas[0]
            self.decs.append(-i - 1)
            return i
        pick = feas[0]
        base = list(self.decs)
        for i in reversed(feas):
            if i != pick:
                self.alts.append((base + [i], None))
        self.decs.append(pick)
        self.push(pos)
        self.assert_(conds[pick])
        return pick

    def concretize_int(self, x, limit=600):
        """Fork over every feasible value of x."""
        if type(x) is not SymInt:
            return x
        e = x.e
        r = self.sconst.get(e.get_id())
        if r is None:
            r = self.sconst[e.get_id()] = (const_val(z3.simplify(e), x.lo), e)
        if r[0] is not None:
            return r[0]
        pos = self.pos
        if pos < len(self.prefix):
            c = self.prefix[pos]
            self.pos += 1
            self.decs.append(c)
            if c[0] == 'v' and pos == self.replay_until:
                self.push(pos)
                self.assert_(i_cmp('==', x, c[1]).e)
            return c[1]
        vals = []
        extra = []
        key = (e.get_id(), frozenset(
            c.get_id() for c in self.slice(vars_of(e))))
        hit = self.concs.get(key)
        if hit is not None:
            vals = hit[0]
        else:
            while True:
                r = self.query(e == e, *extra)
                if r == z3.unsat:
                    break
                if r != z3.sat:
                    raise Unsupported('concretize: solver gave up')
                v = self.value(e, self._last_model, x.lo)
                vals.append(v)
                extra.append(z3.Not(i_cmp('==', x, v).e))
                if len(vals) > limit:
                    raise Unsupported('concretize: more than %d values'
                                      % limit)
            self.concs[key] = (vals, e, self.slice(vars_of(e)))
        self.pos += 1
        if not vals:
            raise Infeasible()
        pick = vals[0]
        if len(vals) == 1:
            self.decs.append(('f', pick))
            return pick
        base = list(self.decs)
        for v in sorted(vals[1:], reverse=True):
            self.alts.append((base + [('v', v)], None))
        self.decs.append(('v', pick))
        self.push(pos)
        self.assert_(i_cmp('==', x, pick).e)
        return pick

    def value(self, e, m, lo):
        """Value of e under the (partial) solution m."""
        vs = vars_of(e)
        r = z3.simplify(z3.substitute(e, *[
            (VARS[v], z3.BitVecVal(m[v], VARS[v].size())) for v in vs]))
        return const_val(r, lo)

    # -- assumptions and checks ---------------------------------------------
    def assume(self, b):
        if type(b) is not SymBool:
            if not b:
                raise Infeasible()
            return
        k = self.const_bool(b.e)
        if k is True:
            return
        if k is False:
            raise Infeasible()
        if self.pos <= self.replay_until:
            return
        if self.query(b.e) == z3.unsat:
            raise Infeasible()
        self.assert_(b.e)

    def check(self, b, label):
        if self.pos <= self.replay_until:
            # decided on an earlier path with the same prefix
            return
        st = self.labels.setdefault(label, [0, 0])
        st[0] += 1
        if type(b) is not SymBool:
            b = bool(b)
            if b:
                self.trivial += 1
                self.discharged += 1
                return
            self._violate(label, None)
            return
        if self.const_bool(b.e) is True:
            self.trivial += 1
            self.discharged += 1
            return
        st[1] += 1
        ne = z3.Not(b.e)
        r = self.query(ne)
        if r == z3.unsat:
            self.discharged += 1
            return
        if r == z3.unknown:
            self.incomplete.append('unknown: %s' % label)
            return
        self._violate(label, self.full_model((ne,), self._last_model))

    def _violate(self, label, model):
        n = self.viol_labels.get(label, 0)
        self.viol_labels[label] = n + 1
        if n < 2:
            if model is None:
                model = self.get_model()
            if model is None:
                raise Infeasible()
            self.violations.append(
                Violation(label, self.concrete_inputs(model)))
        raise PathStop()

    # -- inputs --------------------------------------------------------------
    def fresh(self, name, lo, hi):
        n = self.varcount.get(name, 0)
        self.varcount[name] = n + 1
        if n:
            name = '%s#%d' % (name, n)
        if lo == hi:
            self.inputs.append((name, lo))
            return lo
        w = width_for(lo, hi)
        v = z3.BitVec(name, w)
        x = SymInt(v, lo, hi)
        self.inputs.append((name, x))
        vi = v.get_id()
        if vi not in VARS:
            VARS[vi] = v
            _ORDER[vi] = len(_ORDER)
        if lo >= 0:
            if hi != (1 << w) - 1:
                self.add_dom(z3.ULE(v, z3.BitVecVal(hi, w)))
            if lo > 0:
                self.add_dom(z3.UGE(v, z3.BitVecVal(lo, w)))
        else:
            if hi != (1 << (w - 1)) - 1:
                self.add_dom(v <= z3.BitVecVal(hi, w))
            if lo != -(1 << (w - 1)):
                self.add_dom(v >= z3.BitVecVal(lo, w))
        return x

    def add_dom(self, e):
        if self.pos <= self.replay_until:
            return
        self.assert_(e)

    def ev(self, model, x):
        t = type(x)
        if t is SymInt:
            v = model.eval(x.e, model_completion=True).as_long()
            if x.lo < 0 and v >= (1 << (x.e.size() - 1)):
                v -= 1 << x.e.size()
            return v
        if t is SymBool:
            return z3.is_true(model.eval(x.e, model_completion=True))
        return x

    def concrete_inputs(self, model):
        if model is None:
            return None
        return [(n, self.ev(model, x)) for n, x in self.inputs]

    def concrete_observed(self, model):
        from . import rt
        return [(n, rt.canon_concrete(self, model, v))
                for n, v in self.observed]


CTX = None


def set_ctx(c):
    global CTX
    CTX = c


def ctx():
    return CTX


def simp_const(e):
    """The constant value of an unsigned vector that simplifies to one."""
    c = CTX
    if c is None:
        return const_val(z3.simplify(e))
    i = e.get_id()
    r = c.sconst.get(i)
    if r is None:
        r = c.sconst[i] = (const_val(z3.simplify(e)), e)
    return r[0]
