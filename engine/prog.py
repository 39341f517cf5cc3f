"""Loading translated modules, the harness API and the per-job worker."""
import json
import os
import subprocess
import sys
import time
import traceback
import types

from . import core, front, rt, strs, models
from .core import SymInt, SymBool, Unsupported, i_cmp
from .vals import PStr, PUni, PDict, PArray, S, U, is_str, in_ranges

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get('VERIF_REPO', '/repo')


def find_sources(repo=None):
    """[(module name, is package, path)]"""
    out = []
    repo = repo or REPO
    root = os.path.join(repo, 'messaging')
    for d, ds, fs in os.walk(root):
        ds[:] = sorted(x for x in ds if x not in ('test', '__pycache__'))
        for f in sorted(fs):
            if f.endswith('.py'):
                p = os.path.join(d, f)
                rel = os.path.relpath(p, repo)[:-3].split(os.sep)
                pkg = rel[-1] == '__init__'
                if pkg:
                    rel = rel[:-1]
                out.append(('.'.join(rel), pkg, p))
    h = os.path.join(VERIF, 'harness')
    for f in sorted(os.listdir(h)):
        if f.endswith('.py') and not f.startswith('_'):
            out.append(('harness.' + f[:-3], False, os.path.join(h, f)))
    out.append(('harness', True, None))
    return out


def jython(args, **kw):
    return subprocess.run(
        ['jython', '-B', '-Dpython.cachedir.skip=true'] + args, **kw)


def dump(outfile, repo=None):
    srcs = [s for s in find_sources(repo) if s[2]]
    r = jython([os.path.join(HERE, 'dump_py2.py'), outfile] +
               ['%s=%s' % (n, p) for n, k, p in srcs],
               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=300)
    if r.returncode:
        raise RuntimeError('cannot parse the sources: %s'
                           % r.stdout.decode('latin-1')[-2000:])


class Program(object):
    def __init__(self, dumpfile, repo=None):
        with open(dumpfile) as f:
            trees = json.load(f)
        self.library = set(trees.get('_library', ()))
        self.code = {}
        self.functions = set()
        self.unsupported = []
        self.consts = {}
        self.pkgs = set()
        for name, pkg, path in find_sources(repo):
            if pkg:
                self.pkgs.add(name)
            if path is None:
                continue
            t = trees[name]
            if t['t'] == 'SyntaxError':
                raise RuntimeError('%s: %s' % (name, t['msg']))
            code, fr = front.translate(name, pkg, t)
            self.code[name] = code
            self.functions.update(fr.functions)
            self.unsupported += ['%s: %s' % (name, u)
                                 for u in fr.unsupported]
            self.consts[name] = [
                (PUni if k == '_u' else PStr)(tuple(c),
                                              ''.join(map(chr, c)))
                for k, c in fr.consts]
        self.std = models.modules()
        self.builtins = models.builtin_table()
        self.mods = {}

    def fresh(self):
        self.mods = {}
        strs.CODECS.clear()
        del strs.SEARCH[:]

    def load(self, name):
        m = self.mods.get(name)
        if m is not None:
            return m
        if name in self.code:
            if '.' in name:
                self.load(name.rsplit('.', 1)[0])
            m = models.Mod(name, ispkg=name in self.pkgs)
            m.__dict__['_open'] = True
            self.mods[name] = m
            g = m.__dict__
            g['__name__'] = S(name)
            g['__file__'] = S('/' + name.replace('.', '/') + '.py')
            g['__builtins__'] = self.builtins
            g['_rt'] = rt
            g['_mod'] = (self, m)
            g['_StopIteration'] = StopIteration
            g['_Exception'] = Exception
            g['_AssertionError'] = AssertionError
            for i, k in enumerate(self.consts[name]):
                g['_k%d' % i] = k
            ctx = core.CTX
            core.set_ctx(None)
            try:
                exec(self.code[name], g)
            finally:
                core.set_ctx(ctx)
            if '.' in name:
                p, leaf = name.rsplit('.', 1)
                self.mods[p].__dict__[leaf] = m
            return m
        if name == 'harness':
            m = self.mods[name] = models.Mod(name, ispkg=True)
            m.__dict__['_open'] = True
            return m
        m = self.std.get(name)
        if m is None:
            top = name.split('.')[0]
            if top == 'messaging' or top == 'harness':
                raise ImportError('No module named %s' % name)
            for x in self.library:
                if x == name or x.startswith(name + '.'):
                    m = self.mods[name] = models.Mod(name)
                    return m
            raise ImportError('No module named %s' % name)
        return m

    def resolve(self, cur, name):
        pkg = cur._name if cur._ispkg else cur._name.rpartition('.')[0]
        if pkg:
            full = pkg + '.' + name
            if full in self.code:
                return full
            if pkg + '.' + name.split('.')[0] in self.code:
                return full
        return name

    def exists(self, name):
        return name in self.code or name in self.std


def imp(mod, name, leaf):
    prog, cur = mod
    full = prog.resolve(cur, name)
    m = prog.load(full)
    if leaf:
        return m
    k = name.count('.')
    top = full.rsplit('.', k)[0] if k else full
    return prog.load(top)


def impfrom(mod, name, level):
    prog, cur = mod
    if level and level > 0:
        base = cur._name.split('.')
        if not cur._ispkg:
            base = base[:-1]
        if level > 1:
            base = base[:-(level - 1)]
        full = '.'.join(base + ([name] if name else []))
    else:
        full = prog.resolve(cur, name)
    return (prog, prog.load(full))


def modattr(pm, name):
    prog, m = pm
    d = m.__dict__
    if name in d:
        return d[name]
    full = m._name + '.' + name
    if prog.exists(full):
        return prog.load(full)
    if m._name in prog.code:
        raise ImportError('cannot import name %s' % name)
    if full in prog.library:
        return rt.Missing(full)
    raise ImportError('cannot import name %s' % name)


def star(pm, mod):
    prog, m = pm
    cur = mod[1]
    names = m.__dict__.get('__all__')
    if names is not None:
        names = [n.need() for n in names]
    else:
        names = [n for n in m.__dict__ if not n.startswith('_')]
    for n in names:
        cur.__dict__[n] = m.__dict__[n]


rt.imp = imp
rt.impfrom = impfrom
rt.modattr = modattr
rt.star = star


# --------------------------------------------------------------------------
# the harness API


def force(v):
    """Decide here what strings that are not built yet depend on."""
    if is_str(v):
        v.c
    elif type(v) in (list, tuple):
        for x in v:
            force(x)
    elif isinstance(v, PDict):
        for k, x in v.entries():
            force(k)
            force(x)



class Inp(object):
    """What a harness uses to draw inputs and state checks."""

    def __init__(self, ctx):
        self.ctx = ctx

    def int(self, name, lo, hi):
        return self.ctx.fresh(name.need(), lo, hi)

    def byte(self, name):
        return self.ctx.fresh(name.need(), 0, 255)

    def bool(self, name):
        return rt.eqv(self.ctx.fresh(name.need(), 0, 1), 1)

    def bytes(self, name, n, lo=0, hi=255):
        n = rt.cint(n)
        return PStr(tuple(self.ctx.fresh('%s_%d' % (name.need(), i), lo, hi)
                          for i in range(n)))

    def byte_list(self, name, n, lo=0, hi=255):
        return [self.ctx.fresh('%s_%d' % (name.need(), i), lo, hi)
                for i in range(n)]

    def _pick(self, name, n, codes, cls):
        nm = name.need()
        codes = sorted(set(rt.cint(c) for c in codes))
        out = []
        for i in range(n):
            x = self.ctx.fresh('%s_%d' % (nm, i), codes[0], codes[-1])
            self.ctx.assume(in_ranges(x, codes))
            out.append(x)
        return cls(tuple(out))

    def pick_bytes(self, name, n, codes):
        return self._pick(name, n, codes, PStr)

    def pick_uni(self, name, n, codes):
        return self._pick(name, n, codes, PUni)

    def uni(self, name, n, lo=0, hi=0xffff):
        out = []
        for i in range(n):
            x = self.ctx.fresh('%s_%d' % (name.need(), i), lo, hi)
            if lo < 0xe000 and hi >= 0xd800:
                self.ctx.assume(rt.lor([i_cmp('<', x, 0xd800),
                                        i_cmp('>', x, 0xdfff)]))
            out.append(x)
        return PUni(tuple(out))

    def choice(self, name, xs):
        xs = list(rt.iter(xs))
        i = self.ctx.fresh(name.need(), 0, len(xs) - 1)
        if type(i) is int:
            return xs[0]
        return xs[self.ctx.concretize_int(i)]

    def fix(self, x):
        """One path per feasible value of the integer x."""
        return rt.cint(x)

    def assume(self, c):
        self.ctx.assume(rt.truthv(c))

    def check(self, c, label):
        self.ctx.check(rt.truthv(c), label.need())

    def fail(self, label):
        self.ctx.check(False, label.need())

    def reach(self, label):
        self.ctx.check(True, label.need())

    def check_eq(self, a, b, label):
        """a == b, one query per symbolic character."""
        label = label.need()
        ctx = self.ctx
        if is_str(a) and is_str(b) and type(a) is type(b):
            if len(a.c) == len(b.c):
                self._eqs(a.c, b.c, label)
                return
        elif type(a) is list and type(b) is list and len(a) == len(b) and \
                all(type(x) in rt.INTS for x in a + b):
            self._eqs(a, b, label)
            return
        ctx.check(rt.truthv(rt.eqv(a, b)), label)

    def _eqs(self, xs, ys, label):
        # the conjunction, asked element by element
        conds = [i_cmp('==', x, y) for x, y in zip(xs, ys)]
        sym = [c for c in conds if c is not True]
        if any(c is False for c in sym) or not sym:
            self.ctx.check(not sym, label)
            return
        for c in sym:
            self.ctx.check(c, label)

    def check_in(self, x, codes, label):
        if type(x) is SymInt:
            c = in_ranges(x, [rt.cint(v) for v in codes])
        else:
            c = x in codes
        self.ctx.check(c, label.need())

    def observe(self, name, v):
        force(v)
        self.ctx.observed.append((name.need(), v))

    def land(self, *a):
        return rt.land([rt.truthv(x) for x in a])

    def lor(self, *a):
        return rt.lor([rt.truthv(x) for x in a])

    def lnot(self, a):
        return rt.lnot(rt.truthv(a))

    def implies(self, a, b):
        return rt.lor([rt.lnot(rt.truthv(a)), rt.truthv(b)])

    def ite(self, c, a, b):
        c = rt.truthv(c)
        if type(c) is SymBool:
            if type(a) in rt.INTS and type(b) in rt.INTS:
                return core.i_ite(c.e, core.toint(a), core.toint(b))
            return a if self.ctx.truth(c) else b
        return a if c else b

    def table(self, key, pairs):
        """Value paired with key; key must be among them."""
        pairs = [(k, v) for k, v in pairs]
        if type(key) is SymInt:
            lo, hi = core.rng(key)
            return core.i_table(key, [(k, v) for k, v in pairs
                                      if lo <= k <= hi])
        for k, v in pairs:
            if k == key:
                return v
        raise KeyError(key)

    def is_concrete(self, x):
        return not core.is_sym(x)

    def file(self, name, content):
        p = '/scratch/' + name.need()
        models.vfs()[p] = content
        return S(p)

    def path(self, name):
        return S('/scratch/' + name.need())

    def read_file(self, path):
        return models.vfs()[path.need()]

    def has_file(self, path):
        return path.need() in models.vfs()

    def remove_file(self, path):
        del models.vfs()[path.need()]

    def smil(self, text):
        dom = getattr(text, 'dom', None)
        if dom is not None:
            return dom
        return models.parse_xml(text)


class Job(object):
    def __init__(self, harness, func, params):
        self.harness = harness
        self.func = func
        self.params = params

    def key(self):
        return '%s.%s(%s)' % (self.harness, self.func, ', '.join(
            '%s=%r' % kv for kv in sorted(self.params.items())))


def to_engine(v):
    if isinstance(v, str):
        return S(v)
    if isinstance(v, (list,)):
        return [to_engine(x) for x in v]
    if isinstance(v, tuple):
        return tuple(to_engine(x) for x in v)
    if isinstance(v, dict):
        return rt.mkdict([(to_engine(k), to_engine(x))
                          for k, x in v.items()])
    return v


EXC_NAMES = {'OSError': 'IOError'}


def exc_name(e):
    return EXC_NAMES.get(type(e).__name__, type(e).__name__)


def trace_text(e):
    """The trace of an exception whose class may be one of the program."""
    try:
        text = str(e)
    except Exception:
        text = ''
    return (''.join(traceback.format_tb(e.__traceback__)) + exc_name(e) +
            ': ' + text)


def run_job(prog, job, opts):
    """Explore one job; returns a JSON-able result."""
    t0 = time.time()
    ctx = core.Ctx(seed=opts.get('seed', 1),
                   max_paths=opts.get('max_paths', 20000),
                   max_steps=opts.get('max_steps', 200000),
                   deadline=t0 + opts['seconds'] if opts.get('seconds')
                   else None,
                   query_ms=opts.get('query_ms', 60000))
    ctx.max_witness = opts.get('witnesses', 50)
    core.set_ctx(ctx)
    last = {}

    def body(ctx):
        prog.fresh()
        inp = Inp(ctx)
        core.set_ctx(None)
        try:
            m = prog.load('harness.' + job.harness)
        finally:
            core.set_ctx(ctx)
        f = m.__dict__[job.func]
        kw = dict((k, to_engine(v)) for k, v in job.params.items())
        try:
            f(inp, **kw)
        except Exception as e:
            if 'tb' not in last:
                last['tb'] = trace_text(e)
            ctx.check(False, 'uncaught:' + exc_name(e))
        return 'ok'
    err = None
    try:
        ctx.explore(body)
    except RecursionError:
        ctx.incomplete.append('unsupported: recursion')
    except core.OutOfTime:
        ctx.incomplete.append('time budget')
    except Exception as e:
        err = trace_text(e)
    r = {
        'job': job.key(), 'harness': job.harness, 'func': job.func,
        'params': job.params, 'paths': ctx.paths,
        'infeasible': ctx.infeasible, 'decisions': ctx.decisions_total,
        'queries': ctx.nq, 'hits': ctx.nhit, 'solver_s': ctx.tq, 'unknown': ctx.nunknown,
        'discharged': ctx.discharged, 'trivial': ctx.trivial,
        'labels': ctx.labels, 'incomplete': sorted(set(ctx.incomplete)),
        'functions': sorted(ctx.functions),
        'violations': [(v.label, v.inputs) for v in ctx.violations],
        'viol_counts': ctx.viol_labels,
        'witnesses': [(i, o) for i, o, _ in ctx.witnesses],
        'steplimit': ctx.steplimit[:3],
        'models': ctx.unsupported_models[:opts.get('models', 40)],
        'wall': time.time() - t0, 'tb': last.get('tb'), 'error': err,
        'const_reads': prog.unsupported,
    }
    core.set_ctx(None)
    return r
