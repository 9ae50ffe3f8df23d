"""python -m sim.fresh <module> <job>: executes a stored job in a new interpreter (a process that shares nothing with
the one that saved the study)."""
import importlib
import pickle
import sys

from . import boot, core


def call(mod, fn, args, tmp, hashseed='4711', flags=(), extra={}):
    """result of mod.fn(*args) computed by a new interpreter"""
    import os
    import subprocess
    job = os.path.join(tmp, 'job')
    with open(job, 'wb') as f:
        pickle.dump((fn, args), f)
    env = dict(os.environ, PYTHONHASHSEED=str(hashseed), **extra)
    r = subprocess.run([sys.executable] + list(flags) + ['-m', 'sim.fresh', mod, job], cwd=os.path.dirname(os.path.dirname(
        os.path.abspath(__file__))), env=env, capture_output=True, timeout=150)
    if r.returncode != 0:
        raise RuntimeError('fresh process failed: ' + r.stderr.decode()[-1500:])
    with open(job + '.out', 'rb') as f:
        return pickle.load(f)


if __name__ == '__main__':
    boot.init()
    m = importlib.import_module(sys.argv[1])
    boot.fresh_run()
    core.new_ctx()
    with open(sys.argv[2], 'rb') as f:
        fn, args = pickle.load(f)
    out = getattr(m, fn)(*args)
    with open(sys.argv[2] + '.out', 'wb') as f:
        pickle.dump(out, f)
