#!/opt/venv/bin/python
"""Run one monitor:  check.py C03 [--tier quick|thorough] [--seed N] [--replay FILE]

exit 0: held on everything observed; exit 1 + VIOLATION line: broken;
exit 2: inconclusive (a monitor was never reached, or the harness failed).
"""
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
PY = '/opt/venv/bin/python'
ENV = {'TZ': 'UTC', 'PYTHONHASHSEED': '0', 'PYTHONDONTWRITEBYTECODE': '1',
       'LANG': 'C.UTF-8', 'LC_ALL': 'C.UTF-8', 'VERIF_CHILD': '1',
       'PYTHONPATH': f'{REPO}:{HERE}'}

if os.environ.get('VERIF_CHILD') != '1':
    env = dict(os.environ)
    env.update(ENV)
    py = PY if os.path.exists(PY) else sys.executable
    os.execve(py, [py, os.path.abspath(__file__)] + sys.argv[1:], env)

os.chdir(HERE)
sys.path[:] = [p for p in sys.path if os.path.abspath(p or '.') != HERE]
sys.path.insert(0, HERE)
sys.path.insert(0, REPO)
from mon import core  # noqa: E402

sys.exit(core.main(sys.argv[1:]))
