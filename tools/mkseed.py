"""mkseed helper: seed(id, prop, needs, breaks, file, old, new, demo)"""
import os, json, subprocess


def seed(id, prop, needs, breaks, edits, demo):
    d = '/verif/seeded/' + id
    os.makedirs(d, exist_ok=True)
    for file, old, new in edits:
        p = '/repo/' + file
        s = open(p, newline='').read()
        assert s.count(old) == 1, (id, file, s.count(old))
        open(p, 'w', newline='').write(s.replace(old, new, 1))
    diff = subprocess.run(['git', '-C', '/repo', 'diff'], capture_output=True, text=True).stdout
    subprocess.run(['git', '-C', '/repo', 'checkout', '--', '.'])
    assert diff, id
    open(d + '/patch.diff', 'w').write(diff)
    open(d + '/demo.sh', 'w').write('#!/bin/bash\nexport PYTHONPATH=$PWD/src MPLBACKEND=Agg PYTHONDONTWRITEBYTECODE=1\n'
                                    'exec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"\n')
    open(d + '/demo.py', 'w').write(demo)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(d + '/meta.json', 'w'), indent=1)
