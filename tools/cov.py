"""Lines of the code under test that no quick job executes:
python3-vt tools/cov.py [CHECK...]"""
import os
import sys
import multiprocessing as mp

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from engine import prog     # noqa
import checks               # noqa

M = sys.monitoring
HIT = set()


def line(code, n):
    if code.co_filename.startswith('<messaging.'):
        HIT.add((code.co_filename, n))
    return M.DISABLE


def lines_of(code, out):
    for a, b, n in code.co_lines():
        if n:
            out.add(n)
    for k in code.co_consts:
        if hasattr(k, 'co_code'):
            lines_of(k, out)


def work(jobs):
    P = prog.Program('/tmp/cov.json')
    if M.get_tool(3) is None:
        M.use_tool_id(3, 'cov')
    M.register_callback(3, M.events.LINE, line)
    M.restart_events()
    M.set_events(3, M.events.LINE)
    for j in jobs:
        try:
            prog.run_job(P, prog.Job(*j[:3]), {'seconds': 15, 'seed': 1})
        except Exception as e:
            print('stopped', j[:3], type(e).__name__)
    return HIT


def main():
    prog.dump('/tmp/cov.json')
    jobs = []
    for k in sys.argv[1:] or sorted(checks.CHECKS):
        jobs += checks.CHECKS[k]['jobs']('quick')
    with mp.Pool(8) as pool:
        parts = pool.map(work, [jobs[i::64] for i in range(64)], 1)
    hit = set()
    for p in parts:
        hit |= p
    for f in sorted(set(f for f, n in hit)):
        path = '/repo/' + f[1:-1].replace('.', '/') + '.py'
        if not os.path.exists(path):
            path = path[:-3] + '/__init__.py'
        src = open(path, encoding='utf8').read().split('\n')
        got = set(n for g, n in hit if g == f)
        doc = False
        for i, l in enumerate(src, 1):
            s = l.strip()
            if s.count('"""') == 1:
                doc = not doc
                continue
            if doc or not s or s[0] in '#@)"' or s.startswith((
                    'class ', 'def ', 'import', 'from', 'else:', 'try:')):
                continue
            if i not in got:
                print('%s:%d: %s' % (f[1:-1], i, s[:90]))


main()
