#!/usr/bin/env python3-vt
"""check.py PROPERTY [--tier quick|thorough]: decides one property on /repo's current tree."""
import sys
import os
import json
import time
import subprocess
import importlib
import multiprocessing as mp
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)
REPO = os.environ.get('VF_REPO', '/repo')
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)


def run_contract(args):
    prop, idx, tier = args[:3]
    again = len(args) > 3
    from vf import core, load, api
    import z3
    z3.set_param('smt.random_seed', (SEED + 7 * again) % 1000)
    c = api.CONTRACTS[prop][idx]
    t0 = time.time()
    opts = c.opts
    best = None
    renaming = {}
    tries = 0
    while True:
        eng = load.Engine()
        if 'engine' in opts:
            opts['engine'](eng)

        eng.static = dict(eng.overrides)

        def fn(path):
            eng.newpath()
            path.native = 1 if opts.get('native') else 0
            v = api.V(path, eng)
            c.fn(v)
        mult = 4 if tier == 'thorough' or again else 1
        run = core.Run(c.name, fn, budget=opts.get('budget', 60) * mult, timeout=opts.get('timeout', 12) * mult,
                       max_forks=opts.get('max_forks', 400))
        run.renaming = renaming
        run.rename_need = None
        loops = opts.get('loops', {})

        def loopspec(fn_, k, loc, loops=loops):
            short = fn_.split('.')[-1]
            for key in ((fn_, k), (short, k), (short, None)):
                if key in loops:
                    return loops[key]
            return None
        run.loopspec = loopspec
        run.max_unroll = opts.get('unroll', 40)
        err = None
        try:
            run.explore()
        except Exception as ex:       # raised by the code on some path, or by the contract
            err = '%s: %s' % (type(ex).__name__, ex)
            run.err_tb = traceback.format_exc()
        if run.rename_need and tries < 40:
            # an invariant variable was renamed in the code: enumerate type-compatible renamings
            missing, free, kinds, spec = run.rename_need
            cands = opts.setdefault('_cands', None)
            if cands is None:
                import itertools
                cands = [dict(zip(missing, perm)) for perm in itertools.permutations(free, len(missing))][:40]
                opts['_cands'] = cands
                best = None
            nxt = [r for r in cands if r != renaming]
            if cands:
                renaming = cands.pop(0)
                tries += 1
                continue
        bad = [r for r in run.results if r.status != 'proved']
        if renaming and (bad or err or run.unsupported) and opts.get('_cands') and tries < 40:
            best = best or (run, err)
            renaming = opts['_cands'].pop(0)
            tries += 1
            continue
        break
    if renaming and (bad or err or run.unsupported):
        run.unsupported.append('no renaming of the invariant variables verifies')
        run.results = [r for r in run.results if r.status == 'proved']
        err = None
    used = sorted('%s:%s' % (m.name, k) for m in eng.mods.values() for k, n in m.used.items()
                  if n.__class__.__name__ in ('FunctionDef', 'ClassDef'))
    if hasattr(eng, 'cused'):
        used += sorted(eng.cused)
    return dict(name=c.name, functions=c.functions, used=used, conc=opts.get('conc'),
                results=[dict(name=r.name, status=r.status, backend=r.backend, inputs=r.inputs, goal=r.goal, pc=r.pc)
                         for r in run.results],
                npaths=run.npaths, unsupported=run.unsupported, err=err,
                err_tb=getattr(run, 'err_tb', None) or getattr(run, 'unsupported_tb', None),
                err_inputs=getattr(run, 'err_inputs', None),
                seeds=run.seeds[:60], wall=time.time() - t0, stat=dict(core.STAT), renaming=renaming,
                expect_paths=opts.get('min_paths', 1))


def worker(args):
    try:
        return run_contract(args)
    except BaseException as ex:
        return dict(name='#%s' % args[1], functions=[], used=[], conc=None, results=[], npaths=0,
                    unsupported=['engine: %s: %s' % (type(ex).__name__, ex)], err=None,
                    err_tb=traceback.format_exc(), err_inputs=None, seeds=[], wall=0, stat={}, renaming={},
                    expect_paths=0)


def known_findings(prop):
    out = []
    fn = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(fn):
        for ln in open(fn):
            ln = ln.strip()
            if ln.startswith('KNOWN-FINDING: property=%s ' % prop):
                out.append(ln)
    return out


def main():
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in sys.argv:
        tier = sys.argv[sys.argv.index('--tier') + 1]
    only = sys.argv[sys.argv.index('--only') + 1] if '--only' in sys.argv else None
    verbose = '-v' in sys.argv
    t0 = time.time()
    evdir = os.path.join(HERE, 'evidence')
    os.makedirs(evdir, exist_ok=True)
    mod = importlib.import_module('contracts.' + prop)
    from vf import api
    cs = api.CONTRACTS.get(prop, [])
    hp = None
    env = dict(os.environ, VERIF_SEED=str(SEED), VERIF_TIER=tier, VF_REPO=REPO, OMP_NUM_THREADS='1',
               OPENBLAS_NUM_THREADS='1', MPLBACKEND='Agg')
    if os.path.exists(os.path.join(HERE, 'conc', prop + '.py')) and '--noconc' not in sys.argv:
        env['PYTHONPATH'] = os.path.join(REPO, 'src')
        hp = subprocess.Popen(['/opt/venv/bin/python', '-W', 'ignore', os.path.join(HERE, 'conc', 'lib.py'), prop],
                              stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=env)
    jobs = [(prop, i, tier) for i in range(len(cs)) if only is None or only in cs[i].name]
    mp.set_start_method('fork')
    with mp.Pool(min(7, max(1, len(jobs))), maxtasksperchild=1) as pool:
        res = pool.map(worker, jobs, chunksize=1) if jobs else []
    # obligations the solver gave up on get a second attempt with more time and another seed: a busy machine is no violation
    slow = [k for k, r in enumerate(res) if r['err'] or any(o['status'] == 'unknown' for o in r['results'])]
    if slow:
        left = max(60, (400 if tier == 'quick' else 3000) - (time.time() - t0))
        with mp.Pool(min(7, len(slow)), maxtasksperchild=1) as pool:
            asy = [(k, pool.apply_async(worker, (jobs[k] + (1,),))) for k in slow]
            end = time.time() + left
            for k, a in asy:
                try:
                    r2 = a.get(max(1, end - time.time()))
                except mp.TimeoutError:
                    continue
                if not r2['unsupported'] or res[k]['unsupported']:
                    r2['retried'] = True
                    res[k] = r2
            pool.terminate()
    # ---- concrete side
    lines = []
    for r in res:
        if not r['conc']:
            continue
        for o in r['results']:
            if o['status'] != 'proved' and o['inputs']:
                lines.append(dict(check=r['conc'], inputs=o['inputs'], why=r['name'] + ' / ' + o['name']))
        if r['err_inputs']:
            lines.append(dict(check=r['conc'], inputs=r['err_inputs'], why=r['name'] + ' / exception'))
        for s in r['seeds']:
            lines.append(dict(check=r['conc'], inputs=s, why='path seed of ' + r['name']))
    conc = dict(cases=0, failures=[], errors=[], samples=[], checks={})
    if hp is not None:
        need = any(o['status'] != 'proved' for r in res for o in r['results']) or any(
            r['unsupported'] or r['err'] for r in res)
        head = json.dumps(dict(extend=bool(need)))
        try:
            out, errtxt = hp.communicate(head + '\n' + '\n'.join(json.dumps(x) for x in lines) + '\n', timeout=700)
            for ln in out.split('\n'):
                if ln.startswith('@@RESULT '):
                    conc = json.loads(ln[9:])
            if not conc['checks'] and not conc['failures']:
                conc['errors'].append('harness produced no result: ' + errtxt[-1500:])
        except subprocess.TimeoutExpired:
            hp.kill()
            conc['errors'].append('harness timeout')
    # ---- verdict
    obligations = sum(len(r['results']) for r in res)
    discharged = sum(1 for r in res for o in r['results'] if o['status'] == 'proved')
    failed = [(r, o) for r in res for o in r['results'] if o['status'] != 'proved']
    errs = [r for r in res if r['err']]
    unsup = [r for r in res if r['unsupported']]
    for r in res:
        if not r['err'] and not r['unsupported'] and not r['results']:
            r['unsupported'].append('no obligation generated')
            unsup.append(r)
    known = known_findings(prop)
    viol = []
    if conc['failures']:
        f = conc['failures'][0]
        viol.append(('input', f))
    elif failed or errs:
        viol.append(('obligation', None))
    elif conc['errors'] and hp is not None:
        viol.append(('harness', None)) if any('import' in e or 'no result' in e for e in conc['errors']) else None
    rp = os.path.join(evdir, 'replay_%s.json' % prop)
    if os.path.exists(rp):
        os.unlink(rp)
    line = None
    if viol:
        kind, f = viol[0]
        doc = dict(property=prop, kind=kind,
                   failed_obligations=[dict(contract=r['name'], functions=r['functions'], obligation=o['name'],
                                            status=o['status'], goal=o['goal'], path=o['pc'], model=o['inputs'])
                                       for r, o in failed][:10],
                   exceptions=[dict(contract=r['name'], error=r['err'], trace=r['err_tb'], model=r['err_inputs'])
                               for r in errs][:5],
                   failing_input=f, harness_errors=conc['errors'][:3],
                   how_to_replay=('cd /verif && PYTHONPATH=%s/src /opt/venv/bin/python conc/lib.py %s --replay %s'
                                  % (REPO, prop, rp)) if f else 'python3-vt check.py %s' % prop)
        with open(rp, 'w') as fh:
            json.dump(doc, fh, indent=1, default=str)
        line = 'VIOLATION property=%s replay=%s' % (prop, rp)
        if kind != 'input':
            line += ' no-failing-input-found'
    # ---- evidence
    meta = getattr(mod, 'META', {})
    backs = {}
    for r in res:
        for o in r['results']:
            if o['status'] == 'proved':
                backs[o['backend']] = backs.get(o['backend'], 0) + 1
    ev = dict(property=prop, tier=tier, seed=SEED, level='proof',
              coverage=dict(
                  obligations=obligations, discharged=discharged,
                  checker_cmd='python3-vt check.py %s --tier %s' % (prop, tier),
                  trusted_base=TRUSTED + meta.get('trusted', []),
                  by_backend=backs, solver_time_s=round(sum(r['stat'].get('time', 0) for r in res), 2),
                  contracts=[dict(contract=r['name'], functions=r['functions'], paths=r['npaths'],
                                  obligations=len(r['results']),
                                  discharged=sum(1 for o in r['results'] if o['status'] == 'proved'),
                                  names=sorted(set(o['name'] for o in r['results']))[:40],
                                  status=('proved' if r['results'] and not r['unsupported'] and not r['err'] and all(
                                      o['status'] == 'proved' for o in r['results']) else
                                      'bounded' if r['unsupported'] else 'failed'),
                                  outside_subset=r['unsupported'][:3], executed_source=r['used'],
                                  wall_s=round(r['wall'], 2)) for r in res],
                  functions_under_contract=sorted(set(f for r in res if not r['unsupported'] for f in r['functions'])),
                  bounded_only=sorted(set(f for r in res if r['unsupported'] for f in r['functions']) |
                                      set(meta.get('bounded', []))),
                  concrete_crosscheck=dict(cases=conc['cases'], per_check=conc['checks'], model_and_path_seeds=len(lines),
                                           errors=conc['errors'][:3], samples=conc['samples'][:3])),
              assumptions=ASSUME + meta.get('assumptions', []),
              wall_s=round(time.time() - t0, 2), violations=1 if line else 0)
    with open(os.path.join(evdir, prop + '.json'), 'w') as fh:
        json.dump(ev, fh, indent=1, default=str)
    # ---- report
    print('%s: %d/%d obligations discharged in %d contracts (%d outside subset), %d concrete cases, %.1fs'
          % (prop, discharged, obligations, len(res), len(unsup), conc['cases'], time.time() - t0))
    if verbose or failed or errs or unsup:
        for r in res:
            bad = [o for o in r['results'] if o['status'] != 'proved']
            tag = 'FAILED' if bad or r['err'] else 'outside-subset' if r['unsupported'] else 'ok'
            if verbose or tag != 'ok':
                print('  [%s] %s paths=%d obl=%d %.1fs %s' % (tag, r['name'], r['npaths'], len(r['results']), r['wall'],
                                                              r['renaming'] or ''))
            for o in bad[:4]:
                print('     - %s: %s  goal %s\n        model %s' % (o['status'], o['name'], o['goal'][:300],
                                                                   json.dumps(o['inputs'])[:300] if o['inputs'] else None))
            if r['err']:
                print('     - raised', r['err'])
                if verbose:
                    print('\n'.join((r['err_tb'] or '').strip().split('\n')[-8:]))
            for u in r['unsupported'][:3]:
                print('     - unsupported:', u)
            if verbose and r['unsupported']:
                print('\n'.join((r['err_tb'] or '').strip().split('\n')[-8:]))
    for e in conc['errors'][:3]:
        print('  harness:', e)
    for f in conc['failures'][:3]:
        print('  failing input:', json.dumps(f)[:600])
    for k in known:
        print(k)
    if line:
        print(line)
        sys.exit(1)
    sys.exit(0)


TRUSTED = ['z3 5.3 / cvc5 1.1.2', 'the source-to-verification-condition engine in /verif/vf',
           'CPython executes the rewritten definitions (rewriting: float literals to exact rationals, / and ** to exact '
           'operators, symbolic loops to invariant cut points)',
           'the numpy model in vf/snp.py (array creation, broadcasting, indexing, reductions, elementwise functions)',
           'ground facts about elementary functions in vf/core.py:axioms']
ASSUME = ['integers are mathematical; floats are exact reals (rounding, overflow, NaN and infinities as data are not modelled)',
          'numba-compiled functions compute what their Python source says']

if __name__ == '__main__':
    main()
