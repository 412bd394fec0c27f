#!/usr/bin/env python3
"""check.py <property>: decides one property on /repo's working tree.

Exit 0: held on everything explored.  Exit 1 with a VIOLATION line: broken.
Exit 3: the machinery failed, no verdict."""
import os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib, props


def main():
    prop = sys.argv[1]
    try:
        return props.CHECKS[prop](prop)
    except vlib.Died as e:
        res = vlib.Result(prop, "model_checking")
        res.violation(str(e), {"stack": str(e)})
        res.coverage = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0}
        return res.finish()
    except vlib.CheckError as e:
        print("check of %s failed, no verdict: %s" % (prop, e), file=sys.stderr)
        return 3
    except Exception:
        traceback.print_exc()
        return 3


sys.exit(main())
