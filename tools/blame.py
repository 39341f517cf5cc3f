"""Do the planted changes touch lines of the original repository?"""
import glob, re, subprocess
BASE = '1b6fbea'
for p in sorted(glob.glob('/verif/seeded/*/patch.diff')):
    own = orig = 0
    f = None
    n = 0
    for line in open(p):
        if line.startswith('--- a/'):
            f = line[6:].strip()
            continue
        m = re.match(r'@@ -(\d+)', line)
        if m:
            n = int(m.group(1))
            continue
        if f is None or line.startswith('+') or line.startswith('\\'):
            continue
        if line.startswith('-'):
            b = subprocess.run(['git', '-C', '/repo', 'blame', '-s', '-L',
                                '%d,%d' % (n, n), 'HEAD', '--', f],
                               capture_output=True, text=True).stdout
            if b.startswith('^'):
                orig += 1
            else:
                h = b.split()[0]
                inb = subprocess.run(['git', '-C', '/repo', 'merge-base', '--is-ancestor', h, BASE]).returncode == 0
                if inb: orig += 1
                else: own += 1
        n += 1
    print(p.split('/')[3], 'orig', orig, 'own', own, '' if orig else '<<<<')
