"""Evaluates mon.props.p16.compute in another build of the kernels; pickled answers on stdout."""
import base64
import importlib
import io
import json
import os
import pickle
import subprocess
import sys
import threading
import warnings


class Peer:
    def __init__(self, mode, prop="p16"):
        from .core import MODE_ENV, PY

        env = {k: v for k, v in os.environ.items() if not k.startswith("NUMBA_") or k == "NUMBA_NUM_THREADS"}
        env.update(MODE_ENV[mode])
        if mode == "bc":
            env["MALLOC_PERTURB_"] = "137"  # what is read before it was written is junk, not leftovers
        self.mode = mode
        self.p = subprocess.Popen([PY, "-m", "mon.peer", prop], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=env, text=True)

    def ask(self, spec):
        self.p.stdin.write(json.dumps(spec) + "\n")
        self.p.stdin.flush()

    def answer(self):
        line = self.p.stdout.readline()
        if not line:
            return None
        return pickle.loads(base64.b64decode(line))


def main():
    from .core import Skip
    from .worker_path import REPO  # noqa: F401  (puts the repository first on the path)

    out = sys.stdout
    sys.stdout = io.StringIO()
    warnings.simplefilter("ignore")
    from mon import pipe

    pipe.patch_milp()
    import dreimac

    assert os.path.dirname(os.path.abspath(dreimac.__file__)) == os.path.join(REPO, "dreimac")
    mod = importlib.import_module("mon.props." + sys.argv[1])
    for line in sys.stdin:
        try:
            res = mod.compute(json.loads(line))
        except Skip as e:
            res = {"skip": str(e)}
        sys.stdout.truncate(0)
        sys.stdout.seek(0)
        out.write(base64.b64encode(pickle.dumps(res)).decode() + "\n")
        out.flush()


if __name__ == "__main__":
    main()
