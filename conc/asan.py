"""the C library of the current tree under AddressSanitizer, one long-lived process"""
import os
import atexit
import shutil
import subprocess
import tempfile
REPO = os.environ.get('VF_REPO', '/repo')
HERE = os.path.dirname(os.path.abspath(__file__))
_exe = None
_p = None


def exe():
    global _exe
    if _exe is None:
        d = tempfile.mkdtemp(prefix='vf_asan_')
        atexit.register(shutil.rmtree, d, True)
        _exe = os.path.join(d, 'drv')
        subprocess.run(['gcc', '-O1', '-g', '-w', '-fsanitize=address,undefined', '-fno-sanitize=float-divide-by-zero',
                        '-fno-sanitize-recover=undefined', '-o', _exe, os.path.join(HERE, 'asan_driver.c'),
                        os.path.join(REPO, 'source/c_library/c_functions.c'), '-lm'], check=True, capture_output=True)
    return _exe


def run(rec, timeout=30):
    """-> (reply words, None) or (None, report)"""
    global _p
    if _p is None:
        env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:detect_stack_use_after_return=1')
        _p = subprocess.Popen([exe()], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=env)
        atexit.register(_p.kill)
    _p.stdin.write(rec + '\n')
    _p.stdin.flush()
    ln = _p.stdout.readline()
    if not ln.startswith('ok'):
        err = _p.stderr.read()
        _p.kill()
        _p = None
        return None, 'memory error: ' + ' | '.join(x.strip() for x in err.split('\n') if 'ERROR' in x or 'runtime error' in x
                                                   or x.strip().startswith('#0') or 'c_functions.c' in x)[:600]
    return ln.split()[1:], None
