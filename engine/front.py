"""Translate a dumped Python 2 syntax tree into a Python 3 `ast` in which every
operation goes through the runtime `_rt`, so that values may be symbolic.
Control flow, functions, classes and exceptions stay native."""
import ast
import ctypes

A = ast
LOAD = A.Load()
STORE = A.Store()
DEL = A.Del()


class Bad(Exception):
    pass


BINOPS = {'Add': 'add', 'Sub': 'sub', 'Mult': 'mul', 'Div': 'div',
          'FloorDiv': 'floordiv', 'Mod': 'mod', 'Pow': 'pow_',
          'LShift': 'shl', 'RShift': 'shr', 'BitOr': 'or__',
          'BitXor': 'xor', 'BitAnd': 'and__'}
CMPS = {'Eq': 'eq', 'NotEq': 'ne', 'Lt': 'lt', 'LtE': 'le', 'Gt': 'gt',
        'GtE': 'ge', 'Is': 'is_', 'IsNot': 'isnot', 'In': 'in_',
        'NotIn': 'notin'}


def has_yield(body):
    stack = list(body)
    while stack:
        n = stack.pop()
        if isinstance(n, dict):
            t = n['t']
            if t == 'Yield':
                return True
            if t in ('FunctionDef', 'ClassDef', 'Lambda', 'GeneratorExp'):
                continue
            stack.extend(n.values())
        elif isinstance(n, list):
            stack.extend(n)
    return False


class Front(object):
    def __init__(self, modname, ispkg):
        self.modname = modname
        self.ispkg = ispkg
        self.consts = []
        self.cls = []
        self.qual = []
        self.ntemp = 0
        self.unsupported = []
        self.functions = []
        self.truediv = False

    # -- helpers -----------------------------------------------------------
    def name(self, id, ctx=LOAD):
        return A.Name(id, ctx)

    def rt(self, f, *args):
        return A.Call(A.Attribute(A.Name('_rt', LOAD), f, LOAD),
                      list(args), [])

    def const(self, v):
        return A.Constant(v)

    def thunk(self, e):
        return A.Lambda(A.arguments([], [], None, [], [], None, []), e)

    def temp(self):
        self.ntemp += 1
        return '_t%d' % self.ntemp

    def mangle(self, n):
        if self.cls and n.startswith('__') and not n.endswith('__'):
            c = self.cls[-1].lstrip('_')
            if c:
                return '_%s%s' % (c, n)
        return n

    def loc(self, node, n):
        l = n.get('l') if isinstance(n, dict) else None
        if l and hasattr(node, '_attributes'):
            node.lineno = l
            node.col_offset = 0
            node.end_lineno = l
            node.end_col_offset = 0
        return node

    # -- expressions -------------------------------------------------------
    def ex(self, n):
        if n is None:
            return None
        try:
            r = getattr(self, 'x_' + n['t'])(n)
        except AttributeError as e:
            if "x_" not in str(e):
                raise
            self.unsupported.append('%s at line %s' % (n['t'], n.get('l')))
            r = self.rt('unsupported', self.const(n['t']))
        return self.loc(r, n)

    def strconst(self, n):
        kind = '_u' if '_u' in n else '_s'
        self.consts.append((kind, tuple(n[kind])))
        return A.Name('_k%d' % (len(self.consts) - 1), LOAD)

    def x_Str(self, n):
        return self.strconst(n)

    def pystr(self, s):
        self.consts.append(('_s', tuple(ord(c) for c in s)))
        return A.Name('_k%d' % (len(self.consts) - 1), LOAD)

    def x_Num(self, n):
        r = n['r']
        if r.endswith('j') or r.endswith('J'):
            raise Bad('complex')
        if r[-1] in 'lL':
            r = r[:-1]
            return self.const(int(r, 0))
        try:
            return self.const(int(r, 0))
        except ValueError:
            return self.const(float(r))

    def x_Name(self, n):
        i = n['id']
        if i == 'True':
            return self.const(True)
        if i == 'False':
            return self.const(False)
        if i == 'None':
            return self.const(None)
        return A.Name(i, LOAD)

    def x_Attribute(self, n):
        return self.rt('ga', self.ex(n['value']),
                       self.const(self.mangle(n['attr'])))

    def idx(self, s):
        t = s['t']
        if t == 'Index':
            return self.ex(s['value'])
        if t == 'Slice':
            return self.rt('mkslice', *[
                self.ex(s[k]) if s[k] is not None else self.const(None)
                for k in ('lower', 'upper', 'step')])
        raise Bad('slice ' + t)

    def x_Subscript(self, n):
        return self.rt('getitem', self.ex(n['value']), self.idx(n['slice']))

    def x_BinOp(self, n):
        op = BINOPS[n['op']['t']]
        if op == 'div' and self.truediv:
            op = 'truediv'
        return self.rt(op, self.ex(n['left']), self.ex(n['right']))

    def x_UnaryOp(self, n):
        op = n['op']['t']
        v = n['operand']
        if op == 'Not':
            return self.rt('not_', self.ex(v))
        if op == 'USub' and v['t'] == 'Num':
            c = self.x_Num(v)
            return self.const(-c.value)
        return self.rt({'USub': 'neg', 'UAdd': 'pos', 'Invert': 'inv'}[op],
                       self.ex(v))

    def x_BoolOp(self, n):
        f = 'and_' if n['op']['t'] == 'And' else 'or_'
        return self.rt(f, *[self.thunk(self.ex(v)) for v in n['values']])

    def x_Compare(self, n):
        ops = [CMPS[o['t']] for o in n['ops']]
        if len(ops) == 1:
            return self.rt(ops[0], self.ex(n['left']),
                           self.ex(n['comparators'][0]))
        args = [self.ex(n['left'])]
        for o, c in zip(ops, n['comparators']):
            args.append(self.const(o))
            args.append(self.thunk(self.ex(c)))
        return self.rt('chain', *args)

    def x_IfExp(self, n):
        return A.IfExp(self.test(n['test']), self.ex(n['body']),
                       self.ex(n['orelse']))

    def x_Dict(self, n):
        return self.rt('mkdict', A.List([
            A.Tuple([self.ex(k), self.ex(v)], LOAD)
            for k, v in zip(n['keys'], n['values'])], LOAD))

    def x_Set(self, n):
        return self.rt('mkset', A.List([self.ex(k) for k in n['elts']], LOAD))

    def x_List(self, n):
        return A.List([self.ex(k) for k in n['elts']], LOAD)

    def x_Tuple(self, n):
        return A.Tuple([self.ex(k) for k in n['elts']], LOAD)

    def comps(self, gens):
        out = []
        for g in gens:
            out.append(A.comprehension(
                self.target(g['target']), self.rt('iter', self.ex(g['iter'])),
                [self.test(c) for c in g['ifs']], 0))
        return out

    def x_ListComp(self, n):
        return A.ListComp(self.rt('stepv', self.ex(n['elt'])),
                          self.comps(n['generators']))

    def x_SetComp(self, n):
        return self.rt('mkset', A.ListComp(self.ex(n['elt']),
                                           self.comps(n['generators'])))

    def x_DictComp(self, n):
        return self.rt('mkdict', A.ListComp(
            A.Tuple([self.ex(n['key']), self.ex(n['value'])], LOAD),
            self.comps(n['generators'])))

    def x_GeneratorExp(self, n):
        return self.rt('genexp', A.GeneratorExp(
            self.rt('stepv', self.ex(n['elt'])), self.comps(n['generators'])))

    def x_Repr(self, n):
        return self.rt('repr_', self.ex(n['value']))

    def x_Yield(self, n):
        return A.Yield(self.ex(n['value']))

    def x_Lambda(self, n):
        args, pre, kw = self.args(n['args'])
        if pre:
            raise Bad('tuple parameter in lambda')
        return A.Lambda(args, self.ex(n['body']))

    def x_Call(self, n):
        args = [self.ex(a) for a in n['args']]
        if n.get('starargs'):
            args.append(A.Starred(self.rt('iter', self.ex(n['starargs'])),
                                  LOAD))
        kws = [A.keyword(k['arg'], self.ex(k['value']))
               for k in n['keywords']]
        if n.get('kwargs'):
            kws.append(A.keyword(None, self.rt('kwnative',
                                               self.ex(n['kwargs']))))
        f = n['func']
        if f['t'] == 'Attribute':
            fn = self.loc(self.rt('gm', self.ex(f['value']), self.const(
                self.mangle(f['attr']))), f)
        else:
            fn = self.ex(f)
        return A.Call(fn, args, kws)

    # truth context
    def test(self, n):
        t = n['t']
        if t == 'BoolOp':
            op = A.And() if n['op']['t'] == 'And' else A.Or()
            return A.BoolOp(op, [self.test(v) for v in n['values']])
        if t == 'UnaryOp' and n['op']['t'] == 'Not':
            return A.UnaryOp(A.Not(), self.test(n['operand']))
        return self.loc(self.rt('truth', self.ex(n)), n)

    # -- targets -----------------------------------------------------------
    def target(self, n):
        t = n['t']
        if t == 'Name':
            r = A.Name(n['id'], STORE)
        elif t == 'Attribute':
            r = A.Attribute(self.ex(n['value']), n['attr'], STORE)
        elif t == 'Subscript':
            r = A.Attribute(self.rt('ref', self.ex(n['value']),
                                    self.idx(n['slice'])), 'v', STORE)
        elif t in ('Tuple', 'List'):
            r = A.Tuple([self.target(e) for e in n['elts']], STORE)
        else:
            raise Bad('target ' + t)
        return self.loc(r, n)

    # -- statements --------------------------------------------------------
    def body(self, ss):
        out = []
        for s in ss:
            try:
                r = getattr(self, 's_' + s['t'])(s)
            except (Bad, KeyError, TypeError, AttributeError) as e:
                self.unsupported.append('%s at line %s' % (e, s.get('l')))
                r = [A.Expr(self.rt('unsupported', self.const(str(e))))]
            if not isinstance(r, list):
                r = [r]
            for x in r:
                self.loc(x, s)
            out.extend(r)
        if not out:
            out = [A.Pass()]
        return out

    def args(self, a):
        pre = []
        names = []
        for p in a['args']:
            if p['t'] == 'Name':
                names.append(A.arg(p['id']))
            else:
                t = self.temp()
                names.append(A.arg(t))
                pre.append((p, t))
        defaults = [self.ex(d) for d in a['defaults']]
        va = A.arg(a['vararg']) if a['vararg'] else None
        ka = A.arg(a['kwarg']) if a['kwarg'] else None
        return (A.arguments([], names, va, [], [], ka, defaults), pre,
                a['kwarg'])

    def s_FunctionDef(self, n):
        args, pre, kw = self.args(n['args'])
        self.qual.append(n['name'])
        fid = '%s:%s' % (self.modname, '.'.join(self.qual))
        self.functions.append(fid)
        body = [A.Expr(self.rt('enter', self.const(fid)))]
        for p, t in pre:
            body.append(A.Assign([self.target(p)], A.Name(t, LOAD)))
        if kw:
            body.append(A.Assign([A.Name(kw, STORE)],
                                 self.rt('kwdict', A.Name(kw, LOAD))))
        ss = n['body']
        inner = self.body(ss)
        if has_yield(ss):
            inner = [A.Try(inner, [A.ExceptHandler(
                A.Name('_StopIteration', LOAD), None, [A.Return(None)])],
                [], [])]
        self.qual.pop()
        return A.FunctionDef(n['name'], args, body + inner,
                             [self.ex(d) for d in n['decorator_list']], None,
                             None, [])

    def s_ClassDef(self, n):
        bases = [self.rt('base', self.ex(b)) for b in n['bases']]
        decs = [self.ex(d) for d in n.get('decorator_list') or []]
        self.cls.append(n['name'])
        self.qual.append(n['name'])
        body = self.body(n['body'])
        self.qual.pop()
        self.cls.pop()
        decs.append(A.Attribute(A.Name('_rt', LOAD), 'finish_class', LOAD))
        return A.ClassDef(n['name'], bases, [], body, decs, [])

    def s_Return(self, n):
        return A.Return(self.ex(n['value']))

    def s_Delete(self, n):
        out = []
        for t in n['targets']:
            if t['t'] == 'Name':
                out.append(A.Delete([A.Name(t['id'], DEL)]))
            elif t['t'] == 'Attribute':
                out.append(A.Delete([A.Attribute(self.ex(t['value']),
                                                 t['attr'], DEL)]))
            elif t['t'] == 'Subscript':
                out.append(A.Expr(self.rt('delitem', self.ex(t['value']),
                                          self.idx(t['slice']))))
            else:
                raise Bad('del')
        return out

    def s_Assign(self, n):
        t = n['targets'][0]
        if t['t'] == 'Name' and t['id'] == '__slots__':
            return [A.Pass()]
        return A.Assign([self.target(t) for t in n['targets']],
                        self.ex(n['value']))

    def s_AugAssign(self, n):
        t = n['target']
        op = 'i' + BINOPS[n['op']['t']]
        v = n['value']
        if t['t'] == 'Name':
            return A.Assign([A.Name(t['id'], STORE)],
                            self.rt('aug', self.const(op),
                                    A.Name(t['id'], LOAD), self.ex(v)))
        if t['t'] == 'Attribute':
            tmp = self.temp()
            return [A.Assign([A.Name(tmp, STORE)], self.ex(t['value'])),
                    A.Assign([A.Attribute(A.Name(tmp, LOAD), t['attr'],
                                          STORE)],
                             self.rt('aug', self.const(op),
                                     self.rt('ga', A.Name(tmp, LOAD),
                                             self.const(self.mangle(
                                                 t['attr']))), self.ex(v)))]
        if t['t'] == 'Subscript':
            a, b = self.temp(), self.temp()
            return [A.Assign([A.Name(a, STORE)], self.ex(t['value'])),
                    A.Assign([A.Name(b, STORE)], self.idx(t['slice'])),
                    A.Assign([A.Attribute(self.rt('ref', A.Name(a, LOAD),
                                                  A.Name(b, LOAD)), 'v',
                                          STORE)],
                             self.rt('aug', self.const(op),
                                     self.rt('getitem', A.Name(a, LOAD),
                                             A.Name(b, LOAD)), self.ex(v)))]
        raise Bad('augassign')

    def s_Print(self, n):
        return A.Expr(self.rt('print_', *[self.ex(v) for v in n['values']]))

    def s_For(self, n):
        return A.For(self.target(n['target']),
                     self.rt('iter', self.ex(n['iter'])),
                     [A.Expr(self.rt('step'))] + self.body(n['body']),
                     self.body(n['orelse']) if n['orelse'] else [])

    def s_While(self, n):
        return A.While(self.test(n['test']),
                       [A.Expr(self.rt('step'))] + self.body(n['body']),
                       self.body(n['orelse']) if n['orelse'] else [])

    def s_If(self, n):
        return A.If(self.test(n['test']), self.body(n['body']),
                    self.body(n['orelse']) if n['orelse'] else [])

    def s_With(self, n):
        return A.With([A.withitem(self.ex(n['context_expr']),
                                  self.target(n['optional_vars'])
                                  if n['optional_vars'] else None)],
                      self.body(n['body']))

    def s_Raise(self, n):
        if n['type'] is None:
            return A.Raise(None, None)
        return A.Raise(self.rt('mkexc', self.ex(n['type']),
                               self.ex(n['inst']) if n['inst']
                               else self.const(None)), None)

    def s_TryExcept(self, n):
        hs = []
        for h in n['handlers']:
            body = self.body(h['body'])
            if h['type'] is None:
                hs.append(A.ExceptHandler(A.Name('_Exception', LOAD), None,
                                          body))
                continue
            nm = None
            if h['name'] is not None:
                nm = self.temp()
                body = [A.Assign([self.target(h['name'])],
                                 A.Name(nm, LOAD))] + body
            hs.append(A.ExceptHandler(self.rt('exctype', self.ex(h['type'])),
                                      nm, body))
        return A.Try(self.body(n['body']), hs,
                     self.body(n['orelse']) if n['orelse'] else [], [])

    def s_TryFinally(self, n):
        return A.Try(self.body(n['body']), [], [], self.body(n['finalbody']))

    def s_Assert(self, n):
        return A.If(A.UnaryOp(A.Not(), self.test(n['test'])), [
            A.Raise(self.rt('mkexc', A.Name('_AssertionError', LOAD),
                            self.ex(n['msg']) if n['msg']
                            else self.const(None)), None)], [])

    def s_Import(self, n):
        out = []
        for al in n['names']:
            if al['asname']:
                out.append(A.Assign([A.Name(al['asname'], STORE)],
                                    self.rt('imp', A.Name('_mod', LOAD),
                                            self.const(al['name']),
                                            self.const(True))))
            else:
                out.append(A.Assign(
                    [A.Name(al['name'].split('.')[0], STORE)],
                    self.rt('imp', A.Name('_mod', LOAD),
                            self.const(al['name']), self.const(False))))
        return out

    def s_ImportFrom(self, n):
        tmp = self.temp()
        if n['module'] == '__future__':
            for al in n['names']:
                if al['name'] == 'division':
                    self.truediv = True
            return [A.Pass()]
        out = [A.Assign([A.Name(tmp, STORE)],
                        self.rt('impfrom', A.Name('_mod', LOAD),
                                self.const(n['module'] or ''),
                                self.const(n.get('level') or 0)))]
        for al in n['names']:
            if al['name'] == '*':
                out.append(A.Expr(self.rt('star', A.Name(tmp, LOAD),
                                          A.Name('_mod', LOAD))))
            else:
                out.append(A.Assign(
                    [A.Name(al['asname'] or al['name'], STORE)],
                    self.rt('modattr', A.Name(tmp, LOAD),
                            self.const(al['name']))))
        return out

    def s_Exec(self, n):
        raise Bad('exec')

    def s_Global(self, n):
        return A.Global(list(n['names']))

    def s_Expr(self, n):
        v = n['value']
        if v['t'] in ('Str', 'Num'):
            return A.Pass()
        return A.Expr(self.ex(v))

    def s_Pass(self, n):
        return A.Pass()

    def s_Break(self, n):
        return A.Break()

    def s_Continue(self, n):
        return A.Continue()

    def module(self, tree):
        body = self.body(tree['body'])
        m = A.Module(body, [])
        A.fix_missing_locations(m)
        return m


def translate(modname, ispkg, tree):
    f = Front(modname, ispkg)
    m = f.module(tree)
    code = compile(m, '<%s>' % modname, 'exec')
    return code, f
