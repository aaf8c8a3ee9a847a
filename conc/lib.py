"""Concrete side of a check: runs the real code on search inputs, solver models and path seeds.

Each conc/<PROP>.py defines CHECKS = {name: (generator(rng, i, lits), check(inputs))}; check returns None
or a message.  Inputs are JSON-able dicts."""
import sys
import os
import json
import time
import ast
import traceback
import importlib.util
import warnings
import signal
warnings.simplefilter('ignore')
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
REPO = os.environ.get('VF_REPO', '/repo')
_real_stdout = sys.stdout


def stub_extensions():
    """compiled extensions that are not built in this tree become empty modules (the checks do not use them)"""
    import types
    import glob
    for m in ('c_library', 'mvn', 'mvnprdmod', 'cov2mod', 'rindmod'):
        if not glob.glob(os.path.join(REPO, 'src', 'wafo', m + '*.so')):
            sys.modules['wafo.' + m] = types.ModuleType('wafo.' + m)


stub_extensions()


def literals(specs):
    """numeric literals of the current source of the given 'file[:name,...]' specs"""
    out = set()
    for sp in specs:
        fn, _, names = sp.partition(':')
        path = os.path.join(REPO, fn)
        try:
            if fn.endswith('.c'):
                import re
                for t in re.findall(r'(?<![\w.])\d+\.?\d*(?:[eE][-+]?\d+)?', open(path).read()):
                    out.add(float(t))
                continue
            tree = ast.parse(open(path, encoding='utf-8', errors='replace').read())
        except Exception:
            continue
        names = [n for n in names.split(',') if n]
        nodes = [n for n in ast.walk(tree) if isinstance(n, (ast.FunctionDef, ast.ClassDef)) and n.name in names] \
            if names else [tree]
        for n in nodes:
            for c in ast.walk(n):
                if isinstance(c, ast.Constant) and isinstance(c.value, (int, float)) and not isinstance(c.value, bool):
                    v = float(c.value)
                    if v == v and abs(v) < 1e12:
                        out.add(v)
    return sorted(out)


class Timeout(Exception):
    pass


def _alarm(*a):
    raise Timeout()


def main():
    prop = sys.argv[1]
    devnull = open(os.devnull, 'w')
    sys.stdout = devnull
    res = dict(cases=0, failures=[], errors=[], samples=[], checks={})
    try:
        import numpy as np
        np.seterr(all='ignore')
        spec = importlib.util.spec_from_file_location('conc_' + prop, os.path.join(HERE, prop + '.py'))
        m = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(m)
    except Exception:
        res['errors'].append('import: ' + traceback.format_exc()[-1500:])
        sys.stdout = _real_stdout
        if '--replay' not in sys.argv:
            sys.stdin.read()
        print('@@RESULT ' + json.dumps(res))
        return
    signal.signal(signal.SIGALRM, _alarm)
    seen = set()

    def one(name, inputs, why):
        gen, chk = m.CHECKS[name][:2]
        res['cases'] += 1
        c = res['checks'].setdefault(name, dict(cases=0, skipped=0))
        c['cases'] += 1
        try:
            signal.alarm(60)
            msg = chk(inputs)
        except Timeout:
            msg = 'no result within 60 s'
        except Skip:
            c['skipped'] += 1
            msg = None
        except Exception as ex:
            msg = 'exception %s: %s' % (type(ex).__name__, ex)
            tb = traceback.format_exc()[-900:]
            if 'conc/' in tb.strip().split('File ')[-1]:
                # raised by the harness code itself (malformed inputs): not a finding
                if why.startswith(('path seed', 'model')):
                    c['skipped'] += 1
                    return False
            msg += ' | ' + tb
        finally:
            signal.alarm(0)
        if msg:
            key = (name, msg[:60])
            if key not in seen and len(res['failures']) < 5:
                seen.add(key)
                res['failures'].append(dict(check=name, inputs=inputs, message=str(msg)[:1500], origin=why))
            return True
        return False

    if '--replay' in sys.argv:
        doc = json.load(open(sys.argv[sys.argv.index('--replay') + 1]))
        f = doc['failing_input']
        bad = one(f['check'], f['inputs'], 'replay')
        sys.stdout = _real_stdout
        print('FAILS: ' + res['failures'][0]['message'] if bad else 'passes')
        sys.exit(1 if bad else 0)
    seed = int(os.environ.get('VERIF_SEED', '1'))
    tier = os.environ.get('VERIF_TIER', 'quick')
    lits = literals(getattr(m, 'LITERALS', []))
    budget = getattr(m, 'BUDGET', 15) * (8 if tier == 'thorough' else 1)

    def search(rounds, tmax, seed):
        per = tmax / max(1, len(m.CHECKS))
        for name, ent in m.CHECKS.items():
            gen = ent[0]
            n = (ent[2] if len(ent) > 2 else 200) * rounds
            rng = np.random.default_rng(seed * 1000 + hash_(name))
            t0 = time.time()
            i = 0
            while i < n and time.time() - t0 < per and len(res['failures']) < 3:
                try:
                    inp = gen(rng, i, lits)
                except StopIteration:
                    break
                except Exception:
                    res['errors'].append('generator %s: %s' % (name, traceback.format_exc()[-500:]))
                    break
                if inp is None:
                    i += 1
                    continue
                if i < 1 and len(res['samples']) < 6:
                    res['samples'].append(dict(check=name, inputs=inp))
                if one(name, inp, 'search'):
                    break
                i += 1
    search(8 if tier == 'thorough' else 1, budget, seed)
    head = sys.stdin.readline()
    try:
        ext = json.loads(head).get('extend')
    except Exception:
        ext = False
    for ln in sys.stdin:
        ln = ln.strip()
        if not ln:
            continue
        x = json.loads(ln)
        if x['check'] in m.CHECKS:
            conv = getattr(m, 'FROM_MODEL', {}).get(x['check'], lambda d: d)
            try:
                inps = conv(x['inputs'])
            except Exception:
                continue
            for inp in (inps if isinstance(inps, list) else [inps]):
                if inp is not None:
                    one(x['check'], inp, 'model ' + x['why'])
    if ext and not res['failures']:
        search(12, 60, seed + 77)
    sys.stdout = _real_stdout
    print('@@RESULT ' + json.dumps(res, default=str))


def hash_(s):
    h = 7
    for ch in s:
        h = (h * 31 + ord(ch)) % 1000003
    return h


class Skip(Exception):
    pass


if __name__ == '__main__':
    sys.modules['lib'] = sys.modules['__main__']
    main()
