#!/opt/venv/bin/python
"""Mutation of the library, to look for changes that the checks miss.

  mutate.py plan PROP...          functions every property's sessions call -> /tmp/mut/calls.json
  mutate.py run N SEED [PROP...]  N random mutants; results appended to /tmp/mut/results.jsonl
  mutate.py one PROP              (internal) check of PROP on the copy in $VERIF_REPO
"""
import ast, collections, json, os, random, shutil, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, os.path.join(ROOT, 'harness'))
MUT = '/tmp/mut'
PY = '/opt/venv/bin/python'


def plan(props_):
    """which functions do the sessions of a property call"""
    import core, props
    path = MUT + '/calls.json'
    out = json.load(open(path)) if os.path.exists(path) else {}
    for p in props_:
        P = props.PROPS[p]
        cnt = collections.Counter()
        n = 60
        for i in range(n):
            seen = set()

            def prof(frame, ev, arg):
                c = frame.f_code
                if ev == 'call' and 'pythonbmp' in c.co_filename:
                    seen.add((os.path.basename(c.co_filename), c.co_firstlineno, c.co_name))
            log = []
            ses = core.Session(log, '%s/1/%s' % (p, i * max(1, P.quick // n)))
            sys.setprofile(prof)
            try:
                P.session(ses, i * max(1, P.quick // n), 'quick')
            except Exception:
                pass
            sys.setprofile(None)
            ses.close()
            cnt.update(seen)
        out[p] = [[*k, v / n] for k, v in cnt.items()]
        print(p, len(cnt))
    os.makedirs(MUT, exist_ok=True)
    json.dump(out, open(path, 'w'))


CMP = {ast.Lt: ['<=', '>'], ast.LtE: ['<'], ast.Gt: ['>=', '<'], ast.GtE: ['>'], ast.Eq: ['!='], ast.NotEq: ['=='], ast.In: ['not in'], ast.NotIn: ['in']}
CMPS = {ast.Lt: '<', ast.LtE: '<=', ast.Gt: '>', ast.GtE: '>=', ast.Eq: '==', ast.NotEq: '!=', ast.In: 'in', ast.NotIn: 'not in'}
BIN = {ast.Add: ('+', ['-']), ast.Sub: ('-', ['+']), ast.Mult: ('*', ['+']), ast.FloorDiv: ('//', ['*']), ast.Mod: ('%', ['//']),
       ast.RShift: ('>>', ['<<']), ast.LShift: ('<<', ['>>']), ast.BitAnd: ('&', ['|']), ast.BitOr: ('|', ['&', '^']), ast.BitXor: ('^', ['|']), ast.Div: ('/', ['*'])}


def mutants(src, fn):
    """[(start, end, new text, description)] for the function node"""
    lines = src.split('\n')
    off = [0]
    for ln in lines:
        off.append(off[-1] + len(ln.encode()) + 1)
    raw = src.encode()

    def pos(l, c):
        return off[l - 1] + c

    def text(n):
        return raw[pos(n.lineno, n.col_offset):pos(n.end_lineno, n.end_col_offset)].decode()
    out = []

    def between(a, b, old, new, what):
        s, e = pos(a.end_lineno, a.end_col_offset), pos(b.lineno, b.col_offset)
        mid = raw[s:e].decode()
        if mid.count(old) == 1:
            out.append((s, e, mid.replace(old, new), what))
    ann = set()
    for n in ast.walk(fn):
        if isinstance(n, ast.arg) and n.annotation:
            ann.update(map(id, ast.walk(n.annotation)))
        if isinstance(n, ast.FunctionDef) and n.returns:
            ann.update(map(id, ast.walk(n.returns)))
    doc = fn.body[0] if fn.body and isinstance(fn.body[0], ast.Expr) and isinstance(getattr(fn.body[0], 'value', None), ast.Constant) else None
    for n in ast.walk(fn):
        if id(n) in ann or n is doc:
            continue
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            for new in CMP.get(type(n.ops[0]), []):
                between(n.left, n.comparators[0], CMPS[type(n.ops[0])], new, 'cmp')
        elif isinstance(n, ast.BinOp) and type(n.op) in BIN:
            o, news = BIN[type(n.op)]
            for new in news:
                between(n.left, n.right, o, new, 'bin')
        elif isinstance(n, ast.BoolOp):
            o, new = ('and', 'or') if isinstance(n.op, ast.And) else ('or', 'and')
            for a, b in zip(n.values, n.values[1:]):
                between(a, b, o, new, 'bool')
        elif isinstance(n, ast.AugAssign) and type(n.op) in BIN:
            o, news = BIN[type(n.op)]
            for new in news:
                between(n.target, n.value, o + '=', new + '=', 'aug')
        elif isinstance(n, ast.Constant) and type(n.value) is int:
            s, e = pos(n.lineno, n.col_offset), pos(n.end_lineno, n.end_col_offset)
            for v in (n.value + 1, n.value - 1):
                if v >= 0:
                    out.append((s, e, str(v), 'const'))
        elif isinstance(n, ast.Constant) and type(n.value) is bool:
            out.append((pos(n.lineno, n.col_offset), pos(n.end_lineno, n.end_col_offset), str(not n.value), 'flag'))
        elif isinstance(n, (ast.If, ast.While, ast.IfExp)):
            s, e = pos(n.test.lineno, n.test.col_offset), pos(n.test.end_lineno, n.test.end_col_offset)
            out.append((s, e, 'not (%s)' % raw[s:e].decode(), 'neg'))
        elif isinstance(n, (ast.Expr, ast.Assign, ast.AugAssign)) and n is not doc:
            s, e = pos(n.lineno, n.col_offset), pos(n.end_lineno, n.end_col_offset)
            out.append((s, e, 'pass', 'del'))
        if isinstance(n, ast.Call):
            for a, b in zip(n.args, n.args[1:]):
                if isinstance(a, ast.Name) and isinstance(b, ast.Name) and a.id != b.id:
                    s, e = pos(a.lineno, a.col_offset), pos(b.end_lineno, b.end_col_offset)
                    out.append((s, e, b.id + ', ' + a.id, 'swap'))
            for a in n.args:
                if isinstance(a, ast.Name) and isinstance(n.func, ast.Name):
                    s, e = pos(a.lineno, a.col_offset), pos(a.end_lineno, a.end_col_offset)
                    out.append((s, e, a.id + ' + 1', 'arg+1'))
    return out


def one(prop):
    """first sessions first, all of the quick tier in the end"""
    import props
    import run
    P = props.PROPS[prop]
    n = P.quick
    tmp = tempfile.mkdtemp(prefix='mut_')
    known = run.findings(prop)
    try:
        ids = list(range(n))
        random.Random(5).shuffle(ids)
        a, size = 0, max(8, n // 40)
        while a < n:
            part = sorted(ids[a:a + size])
            res = run.chunk((prop, 1, 'quick', part, tmp))
            bad = [b for b in res['bad'] if b['verdict'] == 'bad' or b['verdict'] == 'kf' and b['kf'] not in known]
            if bad:
                print('RESULT', json.dumps(['caught', a + size, bad[0]['op'], bad[0]['clause'][:80]]))
                return
            if res['err'] or res['gen_error']:
                print('RESULT', json.dumps(['error', a + size, (res['err'] or res['gen_error'])[-400:]]))
                return
            a += size
            size = min(P.chunk, size * 3)
        print('RESULT', json.dumps(['survived', n]))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def worker(job):
    fname, fn, prop, m, k = job
    d = tempfile.mkdtemp(prefix='m', dir=MUT)
    try:
        shutil.copytree('/repo/pythonbmp', d + '/pythonbmp', ignore=shutil.ignore_patterns('__pycache__'))
        p = d + '/pythonbmp/' + fname
        raw = open(p, 'rb').read()
        s, e, new, what = m
        open(p, 'wb').write(raw[:s] + new.encode() + raw[e:])
        t = time.time()
        env = dict(os.environ, VERIF_REPO=d, PYTHONDONTWRITEBYTECODE='1')
        try:
            q = subprocess.run([PY, __file__, 'one', prop], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=1500)
            o = [x for x in q.stdout.decode('utf8', 'replace').split('\n') if x.startswith('RESULT ')]
            r = json.loads(o[0][7:]) if o else ['broken', q.stdout.decode('utf8', 'replace')[-300:]]
        except subprocess.TimeoutExpired:
            r = ['timeout']
        line = raw[:s].count(b'\n') + 1
        rec = dict(file=fname, fn=fn, prop=prop, line=line, what=what, s=s, e=e, old=raw[s:e].decode(), new=new, result=r, t=round(time.time() - t))
        ctx = raw.split(b'\n')[line - 1].decode().strip()
        rec['ctx'] = ctx
        return rec
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    if sys.argv[1] == 'plan':
        plan(sys.argv[2:])
    elif sys.argv[1] == 'one':
        one(sys.argv[2])
    else:
        n, seed, only = int(sys.argv[2]), int(sys.argv[3]), sys.argv[4:]
        calls = json.load(open(MUT + '/calls.json'))
        best = {}
        for p, fs in calls.items():
            if only and p not in only:
                continue
            for f, l, name, v in fs:
                best.setdefault((f, l, name), []).append((v, p))
        r = random.Random(seed)
        jobs = []
        trees = {}
        for (f, l, name), vs in best.items():
            if f not in trees:
                src = open('/repo/pythonbmp/' + f, newline='').read()
                trees[f] = (src, {(min([x.lineno] + [d.lineno for d in x.decorator_list]), x.name): x for x in ast.walk(ast.parse(src)) if isinstance(x, ast.FunctionDef)})
            fn = trees[f][1].get((l, name))
            if fn is None:
                continue
            for m in mutants(trees[f][0], fn):
                jobs.append((f, name, vs, m))
        print(len(jobs), 'mutants in', len(best), 'functions')
        # every function alike
        by = collections.defaultdict(list)
        for j in jobs:
            by[j[:2]].append(j)
        pick = []
        keys = sorted(by)
        done = set()
        if os.path.exists(MUT + '/results.jsonl'):
            done = {(x['fn'], x['s'], x['new']) for x in map(json.loads, open(MUT + '/results.jsonl'))}
        tries = 0
        while len(pick) < n and tries < 20 * n:
            tries += 1
            k = r.choice(keys)
            j = r.choice(by[k])
            if (j[1], j[3][0], j[3][2]) in done:
                continue
            done.add((j[1], j[3][0], j[3][2]))
            top = max(v for v, p in j[2])
            p = r.choice([p for v, p in j[2] if v >= top * 0.6])
            pick.append((j[0], j[1], p, j[3], len(pick)))
        import multiprocessing.pool
        with multiprocessing.pool.ThreadPool(int(os.environ.get('MUT_J', '7'))) as pool, open(MUT + '/results.jsonl', 'a') as out:
            for rec in pool.imap_unordered(worker, pick):
                out.write(json.dumps(rec) + '\n')
                out.flush()


if __name__ == '__main__':
    main()
