#!/opt/venv/bin/python
"""Driver of one property's check.

  run.py PROP [quick|thorough]

Runs the property's TLC model checking jobs, performs its sessions on the library in
/repo, validates every recorded session against the specification with TLC, prints
the verdict and rewrites evidence/PROP.json."""
import collections, glob, json, multiprocessing as mp, os, re, resource, shutil, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
SPEC = os.path.join(ROOT, 'spec')
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
JAR = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'


def compile_dbl(tmp):
    """the evaluator of spec/Dbl.tla, for TLC's class path"""
    d = os.path.join(tmp, 'classes')
    os.makedirs(d, exist_ok=True)
    subprocess.run(['javac', '-nowarn', '-cp', JAR, '-d', d, os.path.join(SPEC, 'java', 'Dbl.java')], check=True, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE)


def java(module, cfg, tmp, env=None, xmx='3g', extra=(), workers='1', timeout=800):
    meta = tempfile.mkdtemp(prefix='tlc', dir=tmp)
    e = dict(os.environ)
    e.update(env or {})
    cmd = ['java', '-XX:+UseSerialGC', '-XX:TieredStopAtLevel=1', '-Xss64m', '-Xmx' + xmx, '-Djava.io.tmpdir=' + tmp, '-cp', JAR + ':' + os.path.join(tmp, 'classes'), 'tlc2.TLC',
           '-workers', workers, '-metadir', meta, '-noGenerateSpecTE', '-config', cfg, *extra, module]
    try:
        p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
        out = p.stdout.decode('utf8', 'replace')
        rc = p.returncode
    except subprocess.TimeoutExpired as x:
        out = (x.stdout or b'').decode('utf8', 'replace') + '\nTIMEOUT'
        rc = -9
    shutil.rmtree(meta, ignore_errors=True)
    m = re.findall(r'(\d[\d,]*) states generated, (\d[\d,]*) distinct', out)
    st = tuple(int(v.replace(',', '')) for v in m[-1]) if m else (0, 0)
    return rc, out, st


def validate(events, tmp, name):
    """TLC's verdicts on a list of events: (verdicts, states, error)"""
    path = os.path.join(tmp, name + '.ndjson')
    drop = ('data', 'sid', 'why', 'pylog', 'raw')
    with open(path, 'w') as f:
        for ev in events:
            f.write(json.dumps({k: v for k, v in ev.items() if k not in drop}) + '\n')
    rc, out, st = java('Trace.tla', 'Trace.cfg', tmp, {'TRACE': path})
    os.unlink(path)
    ver = [(int(i), k, c) for i, k, c in re.findall(r'<<"VERDICT", (\d+), "(\w+)", "([^"]*)">>', out)]
    if rc == 0 and 'No error has been found' in out:
        return ver, st, None
    # an event that the specification cannot evaluate at all
    m = re.findall(r'^l = (\d+)', out, re.M) or re.findall(r'\[\s*l \|-> (\d+)', out)
    if m and ('Error:' in out) and 'OutOfMemory' not in out and 'StackOverflow' not in out and rc != -9:
        i = int(m[-1])
        if i <= len(events):
            ver.append((i, 'bad', 'not evaluable: ' + ' '.join(x for x in out.split('\n') if x.startswith('Error') or 'Attempted' in x)[:600]))
            return ver, st, None
    return ver, st, out[-3000:]


def chunk(job):
    """one worker task: perform sessions, then validate them"""
    prop, seed, tier, ids, tmp = job
    t0 = time.time()
    soft, hard = resource.getrlimit(resource.RLIMIT_AS)
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, hard))
    os.environ['VERIF_TMP'] = tmp
    import core, props
    log, spans = [], []
    P = props.PROPS[prop]
    ops = collections.Counter()
    gen_error = None
    for sid in ids:
        ses = core.Session(log, '%s/%s/%s' % (prop, seed, sid))
        a = len(log)
        try:
            P.session(ses, sid, tier)
        except Exception as x:      # the generator may stumble over a broken library state
            if not ses.dead:
                import traceback
                gen_error = traceback.format_exc()
        finally:
            ses.close()
        spans.append((a, len(log), sid))
    resource.setrlimit(resource.RLIMIT_AS, (soft, hard))
    for ev in log:
        ops[ev['op']] += 1
    t1 = time.time()
    ver, st, err = validate(log, tmp, 'chunk%s_%d' % (prop, ids[0]))
    bad = judged(ver, log, spans)
    samples = []
    if spans:
        a, b, sid = spans[len(spans) // 2]
        samples.append({'session': sid, 'events': [[x['op'], 's=%d d=%d' % (x['s'], x['d']), str(x['a'])[:120]] for x in log[a - 1:b]][:12]})
    return dict(bad=bad, st=st, err=err, n=len(log), ns=len(ids), ops=dict(ops), gen_error=gen_error,
                tg=t1 - t0, tt=time.time() - t1, samples=samples)


def judged(ver, log, spans):
    """the verdicts with the history that led to them"""
    bad = []
    for i, k, c in ver:
        a, b, sid = next(s for s in spans if s[0] - 1 <= i - 1 < s[1])
        ev = log[i - 1]
        rec = {'verdict': k, 'clause': c, 'event': i, 'session': sid, 'op': ev['op'], 'a': ev['a'], 'kf': ev.get('kf', '')}
        if k == 'bad':
            rec['why'] = ev.get('why', '')
            rec['history'] = [{kk: vv for kk, vv in x.items() if kk not in ('chg',)} for x in log[a - 1:i]]
            rec['logged'] = ev['chg']
            rec['ret'] = ev['ret']
            rec['msg'] = ev['msg']
        bad.append(rec)
    return bad


def mcjob(job):
    name, module, cfg, tmp, env, post = job
    rc, out, st = java(module, cfg, tmp, env, xmx='4g')
    ok = rc == 0 and 'No error has been found' in out
    if not ok:
        i = out.find('Error:')
        out = out[i:i + 3000] if i >= 0 else out[-3000:]
    return dict(name=name, ok=ok, st=st, out=out if not ok else '', steps=steps_of(out) if ok and env.get('GEN') == '1' else [])


def steps_of(out):
    """the transitions a model printed"""
    L = []
    for x in re.findall(r'^<<"STEP", "(.*)">>$', out, re.M):
        L.append(json.loads(json.loads('"' + x + '"')))
    return L


def replay(job):
    """perform transitions of a model on the real library and let the specification judge what it did"""
    prop, name, steps, first, tmp = job
    os.environ['VERIF_TMP'] = tmp
    import core, props, box
    soft, hard = resource.getrlimit(resource.RLIMIT_AS)
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, hard))
    log, spans = [], []
    for i, st in enumerate(steps if steps and 'path' in steps[0] else []):
        ses = core.Session(log, 'model %s path %d' % (name, first + i))
        a = len(log)
        box.perform_path(ses, st)
        ses.close()
        spans.append((a, len(log), ses.sid))
    for i in range(0, 0 if spans else len(steps), 150):
        ses = core.Session(log, 'model %s step %d' % (name, first + i))
        a = len(log)
        for st in steps[i:i + 150]:
            if ses.dead:        # a call that raised ends a session
                spans.append((a, len(log), ses.sid))
                ses.close()
                ses = core.Session(log, ses.sid)
                a = len(log)
            box.perform(ses, st)
        ses.close()
        spans.append((a, len(log), ses.sid))
    resource.setrlimit(resource.RLIMIT_AS, (soft, hard))
    t1 = time.time()
    ops = collections.Counter(ev['op'] for ev in log)
    ver, st, err = validate(log, tmp, 'box%s_%s_%d' % (prop, name, first))
    return dict(bad=judged(ver, log, spans), st=st, err=err, n=sum(v for k, v in ops.items() if k not in ('reset', 'poke')), ns=0, ops=dict(ops), gen_error=None, tg=0, tt=time.time() - t1, samples=[])


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    t0 = time.time()
    import props
    P = props.PROPS[prop]
    tmp = tempfile.mkdtemp(prefix='verif_%s_' % prop)
    try:
        compile_dbl(tmp)
        rc = check(prop, P, tier, seed, tmp, t0)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    sys.exit(rc)


def check(prop, P, tier, seed, tmp, t0):
    n = P.quick if tier == 'quick' else P.thorough
    n = int(os.environ.get('VERIF_N', n))
    per = P.chunk
    ids = list(range(n))
    nch = max(1, (n + per - 1) // per)
    nch = ((nch + 7) // 8) * 8 if n >= 8 else 1
    jobs = [(prop, seed, tier, ids[i::nch], tmp) for i in range(nch) if ids[i::nch]]
    mcs = [(m[0], m[1], m[2], tmp, m[3] if len(m) > 3 else {}, False) for m in P.mc(tier)]
    with mp.Pool(8, maxtasksperchild=1) as pool:
        am = pool.map_async(mcjob, mcs, 1)
        ac = pool.map_async(chunk, jobs, 1)
        mres, res = am.get(), ac.get()
        boxes = []
        for m in mres:
            k = max(300, min(1500, (len(m['steps']) + 7) // 8))
            boxes += [(prop, m['name'], m['steps'][i:i + k], i, tmp) for i in range(0, len(m['steps']), k)]
        bres = pool.map(replay, boxes, 1)
    res += bres
    err = [r['err'] for r in res if r['err']] + [m['name'] + '\n' + m['out'][-3000:] for m in mres if not m['ok']]
    bads = [b for r in res for b in r['bad'] if b['verdict'] == 'bad']
    kfs = [b for r in res for b in r['bad'] if b['verdict'] == 'kf']
    known = findings(prop)
    for b in [b for b in kfs if b['kf'] not in known]:
        b['clause'] = 'finding %s is not recorded for this property' % b['kf']
        bads.append(b)
    extra = P.extra(tier, seed, tmp) if hasattr(P, 'extra') else None
    if extra:
        bads += extra.get('bad', [])
        err += extra.get('err', [])
    gen = [r['gen_error'] for r in res if r['gen_error']]
    ops = collections.Counter()
    for r in res:
        ops.update(r['ops'])
    wall = time.time() - t0
    ev = dict(property=prop, tier=tier, seed=seed, level='model_checking', coverage=dict(
        states=sum(r['st'][1] for r in res) + sum(m['st'][1] for m in mres),
        transitions=sum(r['st'][0] for r in res) + sum(m['st'][0] for m in mres),
        traces_validated_against_impl=sum(r['ns'] for r in res),
        model_transitions_replayed=sum(r['n'] for r in bres),
        events_validated=sum(r['n'] for r in res),
        operations=dict(ops.most_common()),
        model_checking={m['name']: {'generated': m['st'][0], 'distinct': m['st'][1]} for m in mres},
        known_finding_events=len(kfs),
        samples=[s for r in res for s in r['samples']][:4]),
        assumptions=P.assumptions, wall_s=round(wall, 1), violations=len(bads))
    if extra:
        ev['coverage'].update(extra.get('coverage', {}))
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    with open(os.path.join(ROOT, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    if mres:
        print('%s models: %d states, %d transitions, %d performed on the library' % (prop, sum(m['st'][1] for m in mres), sum(m['st'][0] for m in mres), sum(r['n'] for r in bres)))
    print('%s %s: %d sessions, %d events, %d TLC states, generation %.1fs, TLC %.1fs (sum over workers), wall %.1fs' % (
        prop, tier, sum(r['ns'] for r in res), sum(r['n'] for r in res), ev['coverage']['states'],
        sum(r['tg'] for r in res), sum(r['tt'] for r in res), wall))
    for k in sorted({b['kf'] for b in kfs if b['kf'] in known}):
        print('KNOWN-FINDING: property=%s %s' % (prop, known[k]))
    if bads:
        os.makedirs(os.path.join(ROOT, 'replays'), exist_ok=True)
        for old in glob.glob(os.path.join(ROOT, 'replays', prop + '-*.json')):
            os.unlink(old)
        for j, b in enumerate(bads[:20]):
            path = os.path.join(ROOT, 'replays', '%s-%d.json' % (prop, j))
            with open(path, 'w') as f:
                json.dump(dict(property=prop, seed=seed, tier=tier, **b), f)
            if j < 5:
                print('  session %s: %s%s -> %s %s' % (b.get('session'), b.get('op'), str(b.get('a'))[:200], b['clause'], b.get('why', '')))
        print('VIOLATION property=%s replay=%s' % (prop, os.path.join(ROOT, 'replays', prop + '-0.json')))
        return 1
    if gen:
        print('generator error:\n' + gen[0])
        return 2
    if err:
        print("checker error:\n" + "\n".join(x for x in err[0].split("\n") if not x.startswith(("Parsing", "Warning", "Semantic", "(Use")))[-2500:])
        return 2
    return 0


def findings(prop):
    out = {}
    with open(os.path.join(ROOT, 'known_findings.txt')) as f:
        for ln in f:
            m = re.match(r'finding: property=(\S+) id=(\S+) (.*)', ln)
            if m and m.group(1) == prop:
                out[m.group(2)] = m.group(3).strip()
    return out


if __name__ == '__main__':
    main()
