"""
Replays assignments on the untouched package.  Reads a JSON list of
{ob, inputs} on stdin; prints one RESULT line per item.

    python -m symx.replay C01 < items.json
    python -m symx.replay C01 evidence/replays/C01-x.json
"""

import importlib
import json
import os
import signal
import sys
import traceback
from pathlib import Path


class Timeout(BaseException):
    pass


def main():
    prop = sys.argv[1]
    if len(sys.argv) > 2:
        d = json.loads(Path(sys.argv[2]).read_text())
        items = [dict(ob=d["ob"], inputs=d["inputs"])]
    else:
        items = json.load(sys.stdin)
    from . import loader
    loader.install(symbolic=False)
    from .runner import unjson
    from .api import ConcreteAPI, ReplayInfeasible, ReplayViolation
    mod = importlib.import_module(f"checks.{prop.lower()}")
    obs = {o.name: o for o in mod.obligations("thorough")}
    for o in mod.obligations("quick"):
        obs.setdefault(o.name, o)

    def alarm(*a):
        raise Timeout()

    signal.signal(signal.SIGALRM, alarm)
    for it in items:
        ob = obs[it["ob"]]
        api = ConcreteAPI(unjson(it["inputs"]))
        signal.alarm(60)
        try:
            ob.fn(api, **ob.params)
            r = dict(status="held", covers=api.covered, missing=api.missing)
        except ReplayViolation as v:
            r = dict(status="violated", label=v.label, detail=v.detail)
        except ReplayInfeasible:
            r = dict(status="infeasible")
        except Timeout:
            r = dict(status="error", detail="timeout")
        except (AttributeError, ImportError, NameError) as e:
            # a name the harness itself uses is gone: no verdict on behaviour
            frames = traceback.extract_tb(e.__traceback__)
            ours = bool(frames) and "/checks/" in frames[-1].filename
            r = dict(status="error" if ours else "violated", label=f"unexpected {type(e).__name__}",
                     detail="".join(traceback.format_exception(e))[-1500:])
        except Exception as e:
            r = dict(status="violated", label=f"unexpected {type(e).__name__}", detail="".join(traceback.format_exception(e))[-1500:])
        finally:
            signal.alarm(0)
            for fn in reversed(api.cleanups):
                try:
                    fn()
                except BaseException:
                    pass
        print("RESULT " + json.dumps(r), flush=True)
    sys.stdout.flush()
    loader.cleanup()
    os._exit(0)


if __name__ == "__main__":
    main()
