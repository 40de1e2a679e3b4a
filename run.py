#!/usr/bin/env python3
"""Entry point of every check: run.py PROPERTY [--tier quick|thorough]
[--replay FILE]. Exit 0: held; exit 1 + VIOLATION line: broken."""
import argparse
import importlib
import os
import sys
import traceback

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import core  # noqa: E402
from vlib import props  # noqa: E402


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=None)
    ap.add_argument('--replay', default=None)
    a = ap.parse_args()
    ctx = core.Ctx(a.prop, a.tier, a.replay)
    try:
        rc = props.CHECKS[a.prop](ctx)
        if a.replay:
            ctx.close()
            print('replay exit', rc)
            return 1 if rc == 1 else 0
        return ctx.finish()
    except core.BuildError as e:
        # The public API no longer compiles/generates: nothing the property
        # promises can be obtained from this tree.
        print(e.log)
        ctx.fail('build:' + e.what, 'public API use does not build: ' + e.what,
                 e.log)
        return ctx.finish()
    except Exception:
        traceback.print_exc()
        ctx.close()
        return 2


if __name__ == '__main__':
    sys.exit(main())
