"""Sessions of the launcher, in scratch directories with stand-ins for the programs it starts."""
import os, shutil, subprocess, sys
from prop import Prop
from gen import *
from ops import B, CALLS

STUB = '#!/bin/sh\n{ printf "%%s\\n" "%s"; for a in "$@"; do printf "%%s\\n" "$a"; done; printf "\\f"; } >> "$STUBLOG"\n'


def script(p, text):
    with open(p, 'w') as f:
        f.write(text)
    os.chmod(p, 0o755)


def enc(path):
    return [[ord(c) for c in n] for n in path]


def launch(ses, ev):
    import core
    tree, given, p, android, how = ev['a']
    n = lambda q: [''.join(map(chr, x)) for x in q]
    top = os.path.realpath(os.path.join(ses.dir, 'w'))
    work = os.path.join(top, 'work')
    os.makedirs(os.path.join(top, 'bin'))
    os.makedirs(work)
    try:
        for path, t, to in sorted(tree, key=lambda v: (v[2] != [], len(v[0]))):
            q = os.path.join(work, *n(path))
            os.makedirs(os.path.dirname(q), exist_ok=True)
            if to:
                os.symlink(os.path.join(work, *n(to)), q)
            else:
                with open(q, 'wb') as f:
                    f.write(b'BM')
                # seconds or thousandths of a second apart
                os.utime(q, ns=(10 ** 18 + t * (10 ** 6 if how & 16 else 10 ** 9),) * 2)
        log = os.path.join(top, 'log')
        script(os.path.join(top, 'bin', 'xdg-open'), STUB % 'xdg-open')
        if android:
            script(os.path.join(top, 'bin', 'am'), STUB % 'am')
            script(os.path.join(top, 'bin', 'toolbox'), '#!/bin/sh\necho Android\n')
        elif how & 4:
            script(os.path.join(top, 'bin', 'toolbox'), '#!/bin/sh\nexit 1\n')
        argv = []
        if given:
            q = '/'.join(n(p))
            argv = [os.path.join(work, q) if how & 1 else './' + q if how & 2 else q]
        r = subprocess.run([sys.executable, os.path.join(core.REPO, 'mspaint.py')] + argv + (['other'] if how & 8 and given else []), cwd=work, stdout=subprocess.PIPE,
                           stderr=subprocess.PIPE, text=True, env={'PATH': os.path.join(top, 'bin'), 'STUBLOG': log, 'LANG': 'C.UTF-8'}, timeout=60)
        calls = open(log).read().split('\f')[:-1] if os.path.exists(log) else []
        out = []
        shown = set()

        def rel(s):
            v = os.path.relpath(s, work)
            return [] if v == '.' else enc(v.split('/'))
        for c in calls:
            w = c.strip('\n').split('\n')
            if w[0] == 'xdg-open':
                out.append([1, rel(w[1]) if len(w) == 2 and os.path.isabs(w[1]) else w])
            else:
                u = w[w.index('-d') + 1]
                out.append([{'broadcast': 2, 'start': 3}[w[1]], rel(u[7:]) if u.startswith('file:///') else u])
        first = r.stdout.split('\n')[0]
        told = int(bool(out) and all(rel(first) == o[1] for o in out)) if r.returncode == 0 else 0 if 'found in' in r.stderr and work in r.stderr else r.stderr[-200:]
        if android and out and isinstance(out[0][1], list):
            f = os.path.join(work, *n(out[0][1]))
            if os.stat(f).st_mode & 0o777 != 0o777:
                told = oct(os.stat(f).st_mode)
        return [r.returncode, out, told]
    finally:
        shutil.rmtree(top, ignore_errors=True)


def ensure(ses, ev):
    b = B()
    ent, how = ev['a']
    d = os.path.dirname(os.path.dirname(os.path.abspath(b.__file__)))
    name = {0: d, 99: ''}
    word = lambda v: name.get(v, '/d%d' % v)
    back = {word(v): v for v in list(range(1, 9)) + [0, 99]}
    old = os.environ.get('PATH')
    try:
        if ent:
            os.environ['PATH'] = os.pathsep.join(map(word, ent))
        else:
            os.environ.pop('PATH', None)
        for _ in range(how % 3 + 1):
            if how < 3:
                b.ensurePaintWrapperInPath()
            else:
                b.saveBMP(os.path.join(ses.dir, 'x.bmp'), b.newBMP(2, 2, 1))
        v = os.environ.get('PATH', '').split(os.pathsep)
        found = shutil.which('mspaint')
        return [[back.get(x, x) for x in v], int(found is not None and os.path.samefile(found, os.path.join(d, 'mspaint.py')))]
    finally:
        if os.path.exists(os.path.join(ses.dir, 'x.bmp')):
            os.remove(os.path.join(ses.dir, 'x.bmp'))
        if old is not None:
            os.environ['PATH'] = old


CALLS['launch'] = launch
CALLS['ensurePath'] = ensure

STEMS = ['a', 'b', 'ab', 'Hello World', 'x1', 'c.d', '-o', '.h', 'ä', 'a*', 'q?']
EXTS = ['.bmp', '.bmp', '.bmp', '.BMP', '.png', '', '.bmp.txt', '.bm']
DIRS = ['s', 'out', 'd.bmp', 'a b']


def c26(ses, sid, tier):
    r = ses.rng
    image(ses, r, 1, bits=8, wh=(2, 2))
    for _ in range(8):
        if ses.dead:
            return
        if r.random() < 0.35:
            e = [r.choice([0, 99, *range(1, 9)]) for _ in range(r.choice([0, 1, 1, 2, 3, 5]))]
            ses.do('ensurePath', e, r.randrange(6))
            continue
        files = {}
        for t in r.sample(range(100, 900), r.choice([0, 1, 2, 3, 4, 6])):
            d = [r.choice(DIRS) for _ in range(r.choice([0, 0, 0, 1, 1, 2, 3]))]
            name = r.choice(STEMS) + r.choice(EXTS)
            q = tuple(d + [name])
            if any(q[:k] in files for k in range(1, len(q))) or any(f[:len(q)] == q for f in files):
                continue
            files[q] = [t, []]
        if files and r.random() < 0.2:
            to = r.choice(sorted(files))
            q = (r.choice(['l.bmp', 'm.bmp']),)
            files[q] = [files[to][0] , enc(to)]
        linked = any(v[1] for v in files.values())
        dirs = {q[:k] for q in files for k in range(1, len(q))}
        tree = [[enc(q), *v] for q, v in files.items()]
        # directories are found like files; their times are those of creation, so patterns avoid them
        given, p = 1, []
        k = r.random()
        if k < 0.2 and not linked:
            given = 0
        elif k < 0.6 and files:
            p = list(r.choice(sorted(files)))
        elif k < 0.65 and dirs:
            p = list(r.choice(sorted(dirs)))
        elif k < 0.9 and files:
            q = list(r.choice(sorted(files)))
            q = q[-r.randint(1, min(2, len(q))):]
            j = r.choice(['*', '?', 'x'])
            s = q[-1]
            c = r.randrange(len(s) + 1)
            q[-1] = s[:c] + j + s[c + (j == '?'):]
            if r.random() < 0.3:
                q[-1] = '*' + q[-1][1:]
            p = q
        else:
            p = [r.choice(['nothing.bmp', '*.gif', '?.bmp', '*.bmp', '*.*', 'a*.bmp'])]
        how = r.choice([0, 0, 0, 1, 2, 4, 8]) + 16 * r.randrange(2)
        import fnmatch
        pat = p if given else ['*.bmp']
        exact = given and (tuple(p) in files or tuple(p) in dirs)
        match = lambda q: len(q) >= len(pat) and all(fnmatch.fnmatchcase(x, y.replace('[', '[[]')) for x, y in zip(q[-len(pat):], pat))
        if not exact:
            if any('**' in n for n in pat) or any(match(q) for q in dirs) or (linked and sum(match(q) for q in files) > 1) or (given and pat[0].startswith('.') and how & 2):
                continue
            how &= ~3
        ses.do('launch', tree, given, enc(p), int(r.random() < 0.3), how)


PROPS = [Prop('C26', c26, quick=210, thorough=2500, chunk=40,
              assumptions=['the programs the launcher starts (xdg-open, am, toolbox) are stand-ins that record their arguments; Windows and macOS branches are not run',
                           'patterns that match a directory, or two names of one file, have no unique latest match and are not asked for'])]
