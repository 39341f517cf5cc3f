"""Runs under Jython: executes harness functions on the real code with
concrete inputs and reports what happened, one JSON line per run."""
import sys
import os
import json
import random
import shutil
import tempfile
import threading
import datetime
import array as _array

REPO, VERIF, INFILE, OUTFILE = sys.argv[1:5]
sys.path.insert(0, VERIF)
sys.path.insert(0, REPO)
sys.dont_write_bytecode = True


class Stop(BaseException):
    pass


class Missing(BaseException):
    pass


class _AnyDate(datetime.tzinfo):
    def utcoffset(self, d):
        return datetime.timedelta(0)

    def dst(self, d):
        return datetime.timedelta(0)


def canon(v):
    if v is True or v is False:
        return ['b', v]
    t = type(v)
    if t in (int, long):
        return ['i', str(v)]
    if t is str:
        return ['s', [ord(c) for c in v]]
    if t is unicode:
        return ['u', [ord(c) for c in v]]
    if v is None:
        return ['n']
    if t is list:
        return ['l', [canon(x) for x in v]]
    if t is tuple:
        return ['t', [canon(x) for x in v]]
    if isinstance(v, _array.array):
        return ['a', [int(x) for x in v]]
    if t is bytearray:
        return ['B', [int(x) for x in v]]
    if t is dict:
        es = [[canon(k), canon(x)] for k, x in v.items()]
        es.sort(key=lambda e: repr_(e[0]))
        return ['d', es]
    if t is float:
        return ['f', repr(v)]
    if isinstance(v, datetime.datetime):
        n = v.replace(tzinfo=None)
        tot = (n.toordinal() * 86400 + n.hour * 3600 + n.minute * 60 +
               n.second)
        off = v.utcoffset()
        if off is not None:
            off = off.days * 86400 + off.seconds
        return ['dt', tot, n.microsecond, off]
    if isinstance(v, datetime.timedelta):
        return ['td', v.days * 86400 + v.seconds, v.microseconds]
    return ['o', t.__name__]


def repr_(v):
    return json.dumps(v).replace('"', "'")


def conv(v):
    if isinstance(v, unicode):
        return v.encode('latin-1')
    if isinstance(v, list):
        return [conv(x) for x in v]
    if isinstance(v, dict):
        return dict((conv(k), conv(x)) for k, x in v.items())
    return v


class Inp(object):
    def __init__(self, inputs, tmp):
        self.vals = dict((conv(k), v) for k, v in inputs)
        self.count = {}
        self.tmp = tmp
        self.failed = None
        self.checked = []
        self.obs = []
        self.missing = []

    def fresh(self, name, lo, hi):
        n = self.count.get(name, 0)
        self.count[name] = n + 1
        if n:
            name = '%s#%d' % (name, n)
        if name not in self.vals:
            self.missing.append(name)
            return int(lo)
        return int(self.vals[name])

    def int(self, name, lo, hi):
        return self.fresh(name, lo, hi)

    def byte(self, name):
        return self.fresh(name, 0, 255)

    def bool(self, name):
        return self.fresh(name, 0, 1) == 1

    def byte_list(self, name, n, lo=0, hi=255):
        return [self.fresh('%s_%d' % (name, i), lo, hi) for i in range(n)]

    def bytes(self, name, n, lo=0, hi=255):
        return ''.join([chr(c) for c in self.byte_list(name, n, lo, hi)])

    def pick_bytes(self, name, n, codes):
        codes = sorted(set(codes))
        return self.bytes(name, n, codes[0], codes[-1])

    def uni(self, name, n, lo=0, hi=0xffff):
        return u''.join([unichr(c)
                         for c in self.byte_list(name, n, lo, hi)])

    def pick_uni(self, name, n, codes):
        codes = sorted(set(codes))
        return self.uni(name, n, codes[0], codes[-1])

    def choice(self, name, xs):
        xs = list(xs)
        return xs[self.fresh(name, 0, len(xs) - 1)]

    def fix(self, x):
        return x

    def assume(self, c):
        if not c:
            raise Missing()

    def check(self, c, label):
        self.checked.append(label)
        if not c:
            self.failed = label
            raise Stop()

    def fail(self, label):
        self.check(False, label)

    def reach(self, label):
        self.check(True, label)

    def check_eq(self, a, b, label):
        self.check(a == b, label)

    def check_in(self, x, codes, label):
        self.check(x in codes, label)

    def observe(self, name, v):
        self.obs.append((name, canon(v)))

    def land(self, *a):
        for x in a:
            if not x:
                return False
        return True

    def lor(self, *a):
        for x in a:
            if x:
                return True
        return False

    def lnot(self, a):
        return not a

    def implies(self, a, b):
        return (not a) or bool(b)

    def ite(self, c, a, b):
        if c:
            return a
        return b

    def table(self, key, pairs):
        for k, v in pairs:
            if k == key:
                return v
        raise KeyError(key)

    def is_concrete(self, x):
        return True

    def file(self, name, content):
        p = os.path.join(self.tmp, name)
        f = open(p, 'wb')
        f.write(content)
        f.close()
        return p

    def path(self, name):
        return os.path.join(self.tmp, name)

    def has_file(self, path):
        return os.path.exists(path)

    def remove_file(self, path):
        os.remove(path)

    def read_file(self, path):
        f = open(path, 'rb')
        try:
            return f.read()
        finally:
            f.close()

    def smil(self, text):
        from xml.dom.minidom import parseString

        def tree(n):
            attrs = {}
            for k in n.attributes.keys():
                attrs[str(k)] = str(n.getAttribute(k))
            return (str(n.tagName), attrs,
                    [tree(x) for x in n.childNodes if x.nodeType == 1])
        return tree(parseString(text).documentElement)


EXC = {'OSError': 'IOError'}


def execute(run):
    tmp = tempfile.mkdtemp(prefix='verif-replay-')
    inp = Inp(run['inputs'], tmp)
    saved = random.randint, random.randrange, random.choice
    random.randint = lambda a, b: inp.fresh('random', a, b)
    random.randrange = lambda a, b=None: inp.fresh(
        'random', b is not None and a or 0, (b is None and a or b) - 1)
    random.choice = lambda xs: xs[inp.fresh('random', 0, len(xs) - 1)]
    res = {'id': run['id']}
    try:
        try:
            mod = __import__('harness.' + conv(run['harness']), None, None,
                             ['x'])
            f = getattr(mod, conv(run['func']))
            f(inp, **conv(run['params']))
            res['status'] = 'ok'
        except Stop:
            res['status'] = 'fail'
            res['label'] = inp.failed
        except Missing:
            res['status'] = 'assume'
        except (SystemExit, KeyboardInterrupt):
            raise
        except:
            t, e = sys.exc_info()[:2]
            name = getattr(t, '__name__', None) or str(t)
            res['status'] = 'fail'
            res['label'] = 'uncaught:' + EXC.get(name, name)
            try:
                import traceback
                res['detail'] = traceback.format_exc()[-1500:]
            except:
                pass
    finally:
        random.randint, random.randrange, random.choice = saved
        shutil.rmtree(tmp, True)
    res['obs'] = inp.obs
    res['missing'] = inp.missing[:5]
    res['checks'] = len(inp.checked)
    return res


def main():
    f = open(INFILE)
    runs = json.load(f)
    f.close()
    out = open(OUTFILE, 'w')
    real = sys.stdout
    for run in runs:
        box = []

        def go():
            try:
                box.append(execute(run))
            except BaseException, e:
                box.append({'id': run['id'], 'status': 'error',
                            'detail': repr(e)})
        t = threading.Thread(target=go)
        t.setDaemon(True)
        t.start()
        t.join(run.get('timeout', 30))
        if not box:
            out.write(json.dumps({'id': run['id'], 'status': 'timeout',
                                  'label': 'nontermination'}) + '\n')
            out.flush()
            out.close()
            os._exit(0)
        out.write(json.dumps(box[0]) + '\n')
        out.flush()
    out.close()
    os._exit(0)


main()
