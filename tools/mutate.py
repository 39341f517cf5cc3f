"""Which small changes of the code under test no quick job notices.

python3-vt tools/mutate.py cover            which job executes which line
python3-vt tools/mutate.py run MODULE...    change, run the jobs that execute
                                            the line, list what survives
Works on /repo as it is and changes nothing there; results in /tmp/mut."""
import collections
import io
import json
import os
import random
import resource
import subprocess
import sys
import time
import tokenize
import multiprocessing as mp
from multiprocessing.connection import wait

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from engine import prog, front     # noqa
import checks                      # noqa

OUT = '/tmp/mut'
MON = sys.monitoring
HIT = set()
PROC = int(os.environ.get('PROC', '6'))


def forked(fn, args, seconds, n):
    """fn of every argument, each in a process of its own."""
    ctx = mp.get_context('fork')
    todo = list(args)[::-1]
    run = {}
    while todo or run:
        while todo and len(run) < n:
            a = todo.pop()
            r, w = ctx.Pipe(False)

            def body(a=a, w=w):
                resource.setrlimit(resource.RLIMIT_AS, (4 << 30, 4 << 30))
                w.send(fn(a))
            p = ctx.Process(target=body)
            p.start()
            w.close()
            run[r] = (p, a, time.time())
        for r in wait(list(run), 0.5):
            p, a, t = run.pop(r)
            try:
                yield r.recv()
            except (EOFError, OSError):
                yield a, 'died', None
            p.join()
            r.close()
        for r, (p, a, t) in list(run.items()):
            if time.time() - t > seconds:
                p.kill()


def jobs_of():
    out = []
    for k in sorted(checks.CHECKS):
        for j in checks.CHECKS[k]['jobs']('quick'):
            out.append([k] + list(j[:3]))
    return out


def line(code, n):
    if code.co_filename.startswith('<messaging.'):
        HIT.add((code.co_filename[1:-1], n))
    return MON.DISABLE


P0 = None


def cover(chunk):
    MON.use_tool_id(3, 'cov')
    MON.register_callback(3, MON.events.LINE, line)
    MON.set_events(3, MON.events.LINE)
    out = []
    for i, j in chunk:
        HIT.clear()
        MON.restart_events()
        t = time.time()
        try:
            prog.run_job(P0, prog.Job(*j[1:]), {'seconds': 5, 'seed': 1,
                                                'max_paths': 25})
        except Exception as e:
            print('stopped', j, type(e).__name__)
        out.append((i, sorted(HIT), time.time() - t))
    return out, 'ok', None


def do_cover():
    os.makedirs(OUT, exist_ok=True)
    prog.dump(OUT + '/base.json')
    jobs = jobs_of()
    cov = collections.defaultdict(list)
    cost = [0] * len(jobs)
    global P0
    P0 = prog.Program(OUT + '/base.json')
    todo = list(enumerate(jobs))
    done = 0
    for res, how, _ in forked(cover, [todo[i:i + 10] for i in
                                      range(0, len(todo), 10)], 60, PROC):
        done += 1
        if done % 100 == 0:
            print(done * 10, 'of', len(jobs), flush=True)
        if how != 'ok':
            print('died', res[0][1])
            continue
        for i, hit, t in res:
            cost[i] = round(t, 2)
            for f, n in hit:
                cov['%s:%d' % (f, n)].append(i)
    json.dump({'jobs': jobs, 'cost': cost, 'cov': cov},
              open(OUT + '/cover.json', 'w'))
    print(len(jobs), 'jobs', len(cov), 'lines', sum(cost), 's')


# --------------------------------------------------------------------------

SWAP = {'<': ['<=', '>'], '>': ['>=', '<'], '<=': ['<'], '>=': ['>'],
        '==': ['!='], '!=': ['=='], '+': ['-'], '-': ['+'], '*': ['+'],
        '/': ['*'], '//': ['*'], '%': ['+'], '<<': ['>>'], '>>': ['<<'],
        '&': ['|'], '|': ['&', '^'], '^': ['|'], '+=': ['-=', '='],
        '|=': ['&=', '='], '-=': ['+='], '<<=': ['>>=']}
NAMES = {'and': ['or'], 'or': ['and'], 'not': [''], 'True': ['False'],
         'False': ['True'], 'in': ['not in'], 'break': ['pass'],
         'continue': ['pass'], 'is': ['is not'], 'None': ['0']}


def sites(src):
    """(line, column, end, new text) of every change."""
    lines = src.split('\n')
    out = []
    try:
        toks = list(tokenize.generate_tokens(io.StringIO(src).readline))
    except (tokenize.TokenError, IndentationError) as e:
        print('tokens:', e)
        return []
    depth = 0
    start = None
    for k, t in enumerate(toks):
        if t.type in (tokenize.NL, tokenize.COMMENT, tokenize.INDENT,
                      tokenize.DEDENT):
            continue
        if start is None:
            start = t
        if t.type == tokenize.NEWLINE:
            a, b = start.start, t.start
            text = lines[a[0] - 1][a[1]:]
            w = text.split('(')[0].split()[0].rstrip(':') if text else ''
            if a[0] == b[0] and w not in (
                    'if', 'for', 'while', 'def', 'class', 'else', 'elif',
                    'try', 'except', 'finally', 'import', 'from', 'pass',
                    'with', '@property', '@staticmethod', 'global') \
                    and text[:1] not in '"\'@ur' + ')' or \
                    w in ('raise', 'return'):
                if a[0] == b[0]:
                    out.append((a[0], a[1], b[1], 'pass'))
            start = None
            continue
        if t.start[0] != t.end[0]:
            continue
        n, a, b = t.start[0], t.start[1], t.end[1]
        if t.type == tokenize.OP:
            prev = toks[k - 1]
            if t.string == '*' and prev.string in '(,':
                continue
            for new in SWAP.get(t.string, []):
                out.append((n, a, b, new))
        elif t.type == tokenize.NAME:
            for new in NAMES.get(t.string, []):
                out.append((n, a, b, new))
        elif t.type == tokenize.NUMBER:
            try:
                v = int(t.string.rstrip('L'), 0)
            except ValueError:
                continue
            for d in (1, -1):
                if v + d >= 0:
                    out.append((n, a, b, str(v + d)))
    return out


def mutants(mod, cov, limit):
    path = [p for m, k, p in prog.find_sources(None) if m == mod][0]
    src = open(path, encoding='utf8').read()
    lines = src.split('\n')
    out = []
    for n, a, b, new in sites(src):
        if not cov.get('%s:%d' % (mod, n)):
            continue
        l = lines[n - 1]
        if l.strip().startswith('debug') or new == 'not in' and \
                l.strip().startswith('for'):
            continue
        ls = list(lines)
        ls[n - 1] = l[:a] + new + l[b:]
        out.append((n, ls[n - 1].strip(), '\n'.join(ls)))
    random.Random(7).shuffle(out)
    return path, out[:limit]


BASE = None
TREES = None


def pick(js, cost, jobs, k):
    """Jobs spread over the functions of the harness, cheap ones first."""
    by = collections.defaultdict(list)
    for i in js:
        by[(jobs[i][0], jobs[i][2])].append(i)
    for v in by.values():
        random.Random(len(v)).shuffle(v)
        v.sort(key=lambda i: cost[i] > 2)
    out = []
    q = list(by.values())
    while q and len(out) < k:
        for v in list(q):
            out.append(v.pop(0))
            if not v:
                q.remove(v)
    return out[:k]


def kill(arg):
    mod, ident, what, n, js = arg
    P = BASE
    with open(OUT + '/trees/%s.json' % ident) as f:
        t = json.load(f)
    if t['t'] == 'SyntaxError':
        return arg, 'syntax', None
    old = P.code[mod], P.consts[mod]
    try:
        code, fr = front.translate(mod, mod in P.pkgs, t)
        P.code[mod] = code
        P.consts[mod] = [
            (prog.PUni if k == '_u' else prog.PStr)(
                tuple(c), ''.join(map(chr, c))) for k, c in fr.consts]
        t0 = time.time()
        unsure = None
        for c, h, f, params in js:
            try:
                r = prog.run_job(P, prog.Job(h, f, params), {
                    'seconds': 8, 'seed': 1, 'max_paths': 400})
            except Exception as e:
                return arg, 'error %s' % type(e).__name__, c
            if r['violations']:
                return arg, 'killed', '%s %s' % (c, r['violations'][0][0])
            if r['error'] or r['steplimit']:
                return arg, 'killed', '%s error' % c
            if r['incomplete']:
                unsure = '%s %s' % (c, r['incomplete'][0])
            if time.time() - t0 > 150:
                break
        return arg, 'unsure' if unsure else 'SURVIVED', unsure
    finally:
        P.code[mod], P.consts[mod] = old


def do_run(mods, limit, k):
    C = json.load(open(OUT + '/cover.json'))
    jobs, cost, cov = C['jobs'], C['cost'], C['cov']
    os.makedirs(OUT + '/src', exist_ok=True)
    os.makedirs(OUT + '/trees', exist_ok=True)
    work = []
    for mod in mods:
        path, ms = mutants(mod, cov, limit)
        args = []
        for i, (n, what, text) in enumerate(ms):
            ident = '%s.%d' % (mod, i)
            p = OUT + '/src/%s.py' % ident
            with open(p, 'w', encoding='utf8') as f:
                f.write(text)
            args.append('%s=%s' % (ident, p))
            js = [jobs[x] for x in pick(cov['%s:%d' % (mod, n)], cost, jobs,
                                        k)]
            work.append((mod, ident, what, n, js))
        dump = OUT + '/trees.json'
        for a in range(0, len(args), 40):
            r = prog.jython([os.path.join(prog.HERE, 'dump_py2.py'), dump] +
                            args[a:a + 40], stdout=subprocess.PIPE,
                            stderr=subprocess.STDOUT, timeout=600)
            if r.returncode:
                print(r.stdout.decode('latin-1')[-800:])
                sys.exit(1)
            for ident, t in json.load(open(dump)).items():
                with open(OUT + '/trees/%s.json' % ident, 'w') as f:
                    json.dump(t, f)
    print(len(work), 'changes', flush=True)
    cnt = collections.Counter()
    global BASE
    BASE = prog.Program(OUT + '/base.json')
    for arg, res, why in forked(kill, work, 240, PROC):
        cnt[res.split()[0]] += 1
        if res != 'killed' or os.environ.get('ALL'):
            print('%-9s %s:%d  %s   [%s] (%d jobs)' % (
                res, arg[0], arg[3], arg[2][:100], why, len(arg[4])),
                flush=True)
    print(dict(cnt))


if __name__ == '__main__':
    if sys.argv[1] == 'cover':
        do_cover()
    else:
        do_run(sys.argv[2:], int(os.environ.get('LIMIT', '100000')),
               int(os.environ.get('JOBS', '60')))
