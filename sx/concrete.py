"""Worker: runs a harness on the unmodified package from /repo with the concrete values of a solver model."""
import importlib
import json
import os
import sys
import traceback
import warnings

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('SX_REPO', '/repo')
sys.path.insert(0, HERE)
sys.path.insert(0, REPO)
out = os.fdopen(os.dup(1), 'w')
os.dup2(2, 1)
devnull = os.open(os.devnull, os.O_WRONLY)
if not os.environ.get('SX_DEBUG'):
    os.dup2(devnull, 2)
    os.dup2(devnull, 1)
warnings.simplefilter('ignore')
from sx.env import fake_frameworks, quiet  # noqa: E402

fake_frameworks()
import numpy as np  # noqa: E402
import gerabaldi  # noqa: E402

assert os.path.realpath(gerabaldi.__file__).startswith(os.path.realpath(REPO) + '/'), gerabaldi.__file__
quiet()
from sx.ctx import ConCtx, Skip  # noqa: E402

for line in sys.stdin:
    job = json.loads(line)
    np.seterr(all='ignore')
    cx = ConCtx(job['values'], job['choices'], job['tables'], job.get('strict', False))
    res = {}
    try:
        fn = importlib.import_module(job['module']).HARNESS[job['harness']]['fn']
        try:
            fn(cx, **job['config'])
        finally:
            if hasattr(cx, 'cleanup'):
                cx.cleanup()
        res = dict(violations=cx.violations, obs=cx.obs, checks=cx.checks)
    except Skip:
        res = dict(skip=True, violations=[], obs=[])
    except Exception as e:  # noqa: BLE001
        tb = traceback.extract_tb(e.__traceback__)
        inside = [f for f in tb if f.filename.startswith(REPO)]
        where = ' <- '.join(f'{os.path.relpath(f.filename, REPO)}:{f.lineno}' for f in reversed(inside[-3:]))
        res = dict(violations=cx.violations + [['no unexpected exception',
                                                f'{type(e).__name__}: {e} ({where or tb[-1].filename})'[:500]]],
                   obs=cx.obs, exc=type(e).__name__)
    out.write(json.dumps(res, default=str) + '\n')
    out.flush()
