# Runs under Jython 2.7: dump the Python 2 syntax trees of the given files.
# usage: jython dump_py2.py OUT.json name=path [name=path ...]
import ast
import sys


def js_str(codes):
    return '[' + ','.join([str(c) for c in codes]) + ']'


def q(s):
    out = ['"']
    for ch in s:
        o = ord(ch)
        if ch in '"\\' or o < 32 or o > 126:
            out.append('\\u%04x' % o)
        else:
            out.append(ch)
    out.append('"')
    return ''.join(out)


def dump(n, w):
    if n is None:
        w('null')
    elif n is True:
        w('true')
    elif n is False:
        w('false')
    elif isinstance(n, ast.Str):
        v = n.s
        if isinstance(v, unicode):
            w('{"t":"Str","_u":%s}' % js_str([ord(c) for c in v]))
        else:
            w('{"t":"Str","_s":%s}' % js_str([ord(c) for c in v]))
    elif isinstance(n, ast.Num):
        w('{"t":"Num","r":%s}' % q(repr(n.n)))
    elif str(n) == 'DictComp' and not getattr(n, '_fields', None):
        dump_dictcomp(n, w)
    elif isinstance(n, ast.AST) or getattr(n, '_fields', None):
        w('{"t":"%s"' % n.__class__.__name__)
        for f in n._fields:
            w(',"%s":' % f)
            dump(getattr(n, f, None), w)
        if hasattr(n, 'lineno'):
            w(',"l":%d' % n.lineno)
        w('}')
    elif isinstance(n, (list, tuple)) or hasattr(n, '__iter__'):
        w('[')
        first = True
        for x in n:
            if not first:
                w(',')
            first = False
            dump(x, w)
        w(']')
    elif isinstance(n, (str, unicode)):
        w(q(n))
    elif isinstance(n, (int, long)):
        w(str(n))
    else:
        # singleton contexts / operators of Jython's ast
        w(q(str(n)))


def collector():
    """A visitor that keeps what it is shown, and goes no deeper."""
    from org.python.antlr import Visitor

    def one(self, n):
        self.seen.append(n)
    d = dict([(m, one) for m in dir(Visitor)
              if m.startswith('visit') and m != 'visit'])
    v = type('Collector', (Visitor,), d)()
    v.seen = []
    return v


def dump_dictcomp(n, w):
    """Jython does not expose the fields of this class."""
    v = collector()
    v.traverse(n)
    key, value = v.seen[:2]
    gens = []
    for x in v.seen[2:]:
        if str(getattr(x, 'ctx', '')) in ('Store', 'Store()') or \
                isinstance(getattr(x, 'ctx', None), ast.Store):
            gens.append([x])
        else:
            gens[-1].append(x)
    w('{"t":"DictComp","key":')
    dump(key, w)
    w(',"value":')
    dump(value, w)
    w(',"generators":[')
    for i, g in enumerate(gens):
        w(i and ',' or '')
        w('{"t":"comprehension","target":')
        dump(g[0], w)
        w(',"iter":')
        dump(g[1], w)
        w(',"ifs":')
        dump(g[2:], w)
        w('}')
    w(']}')


def library(trees, known):
    """What the library has of the names that are imported."""
    names = set()
    for t in trees:
        for n in ast.walk(t):
            if isinstance(n, ast.Import):
                for a in n.names:
                    names.add((a.name, None))
            elif isinstance(n, ast.ImportFrom) and not n.level:
                for a in n.names:
                    names.add((n.module, a.name))
    found = []
    for m, a in sorted(names):
        top = m.split('.')[0]
        if top in known or top in ('messaging', 'harness', '__future__'):
            continue
        try:
            __import__(m)
            if a and a != '*' and not hasattr(sys.modules[m], a):
                __import__(m + '.' + a)
        except Exception:
            continue
        found.append(m if a is None else m + '.' + a)
    return found


def main():
    trees = []
    known = set(a.split('=', 1)[0].split('.')[-1] for a in sys.argv[2:])
    out = open(sys.argv[1], 'w')
    w = out.write
    w('{')
    first = True
    for a in sys.argv[2:]:
        name, path = a.split('=', 1)
        if not first:
            w(',\n')
        first = False
        f = open(path)
        src = f.read()
        f.close()
        w(q(name) + ':')
        try:
            tree = ast.parse(src, path)
        except SyntaxError, e:
            w('{"t":"SyntaxError","msg":%s}' % q(str(e)))
            continue
        trees.append(tree)
        dump(tree, w)
    w(',\n"_library":[%s]}' % ','.join([q(x) for x in library(trees, known)]))
    out.close()


main()
