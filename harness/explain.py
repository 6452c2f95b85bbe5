#!/opt/venv/bin/python
"""explain.py PROP SESSION [SEED]: perform one session and show how the bitmaps
after a rejected operation differ from those that the specification allows."""
import json, os, re, shutil, subprocess, sys, tempfile
import run, core, props

MOD = r'''---- MODULE Dbg ----
EXTENDS Trace
DStep(e) ==
  /\ Step(e)
  /\ IF skip' /\ ~skip THEN LET Z == After(e, st)  E == Eff(e, st, Z, FALSE)
        IN PrintT(ToJson([i |-> e.i, s |-> E.s, d |-> E.d, z |-> Z[e.s], r |-> E.ret, m |-> E.msg, zd |-> IF e.d = 0 THEN NoImg ELSE Z[e.d]])) ELSE TRUE
DNext == l <= N /\ DStep(T[l]) /\ l' = l + 1
DSpec == Init /\ [][DNext]_vars
====
'''


def show(a, b, name):
    if not (isinstance(a, dict) and isinstance(b, dict)) or a.get('w') != b.get('w') or a.get('h') != b.get('h') or 'px' not in a:
        if a != b:
            print(name, 'expected', str(a)[:300], '\n observed', str(b)[:300])
        return
    for k in ('b', 'pal', 'hx'):
        if a.get(k) != b.get(k):
            print(name, k, 'expected', str(a.get(k))[:600], '\n observed', str(b.get(k))[:600])
    w = a['w']
    n = [(i % w, i // w, x, y) for i, (x, y) in enumerate(zip(a['px'], b['px'])) if x != y]
    print(name, '%dx%dx%d' % (w, a['h'], a['b']), len(n), 'pixels differ (x, y, expected, observed):', n[:40])


def main():
    prop, sid = sys.argv[1], int(sys.argv[2])
    seed = sys.argv[3] if len(sys.argv) > 3 else '1'
    tmp = tempfile.mkdtemp(prefix='explain')
    os.environ['VERIF_TMP'] = tmp
    try:
        log = []
        ses = core.Session(log, '%s/%s/%s' % (prop, seed, sid))
        props.PROPS[prop].session(ses, sid, 'quick')
        ses.close()
        run.compile_dbl(tmp)
        p = os.path.join(tmp, 't.ndjson')
        drop = ('data', 'sid', 'why', 'pylog', 'raw')
        with open(p, 'w') as f:
            for ev in log:
                f.write(json.dumps({k: v for k, v in ev.items() if k not in drop}) + '\n')
        d = os.path.join(tmp, 'spec')
        shutil.copytree(run.SPEC, d)
        open(os.path.join(d, 'Dbg.tla'), 'w').write(MOD)
        open(os.path.join(d, 'Dbg.cfg'), 'w').write(open(os.path.join(d, 'Trace.cfg')).read().replace('Spec', 'DSpec'))
        run.SPEC = d
        rc, out, st = run.java('Dbg.tla', 'Dbg.cfg', tmp, {'TRACE': p})
        for ln in out.split('\n'):
            if 'VERDICT' in ln:
                print(ln)
            if ln.startswith('"{'):
                j = json.loads(json.loads(ln))
                ev = log[j['i'] - 1]
                print(ev['op'], str(ev.get('raw', ev['a']))[-900:], 'exc', ev['exc'], ev.get('why', ''))
                show(j['s'], j['z'], 's')
                show(j['d'], j['zd'], 'd')
                if ev['ret'] != j['r'] and j['r'].get('k') != 'any':
                    print('ret expected', str(j['r'])[:500], '\n observed', str(ev['ret'])[:500])
                if sorted(ev['msg']) != sorted(j['m']):
                    print('msg expected', j['m'], 'observed', ev['msg'])
        if rc != 0:
            print("\n".join(x for x in out.split("\n") if not x.startswith(("Load","Lint","Pars","Sem","Warn")))[:3000])
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


main()
