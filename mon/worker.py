"""Runs cases of one property against the code in /repo, one JSON spec per line."""
import faulthandler
import importlib
import io
import json
import os
import signal
import sys
import traceback
import warnings

REPO = os.environ.get("MON_REPO", "/repo")
sys.path.insert(0, REPO)


def main():
    prop, mode = sys.argv[1:3]
    # asked by the runner when a case takes too long: where is it?
    faulthandler.register(signal.SIGUSR1, file=open("stack.%d" % os.getpid(), "w"), all_threads=True)
    out = sys.stdout
    sys.stdout = io.StringIO()
    warnings.simplefilter("ignore")
    from mon import pipe

    pipe.patch_milp()
    import dreimac

    assert os.path.dirname(os.path.abspath(dreimac.__file__)) == os.path.join(REPO, "dreimac"), dreimac.__file__
    from mon.core import Ctx, Skip

    mod = importlib.import_module("mon.props." + prop.lower())
    for line in sys.stdin:
        spec = json.loads(line)
        ctx = Ctx(spec, mode)
        skip = None
        del pipe.MILP[:]
        try:
            mod.run(spec, ctx)
        except Skip as e:
            skip = str(e)[:60]
        except Exception as e:
            ctx.viol("oracle", "output could not be interpreted: %s: %s | %s" % (
                type(e).__name__, str(e)[:200], "".join(traceback.format_tb(e.__traceback__)[-2:]).replace("\n", " ")[:500]))
        sys.stdout.truncate(0)
        sys.stdout.seek(0)
        out.write(json.dumps(dict(events=ctx.events, violations=ctx.violations, findings=ctx.findings, sigs=ctx.sigs, skip=skip)) + "\n")
        out.flush()


main()
