#!/usr/bin/env python3
"""check.py <property> [quick|thorough]      decide one property
   check.py --replay <file>                   judge a stored violation again, re-recording it from /repo
   check.py --build                           build everything the checks need"""
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import core  # noqa: E402
from vlib import props  # noqa: E402


def replay(path):
    v = json.load(open(path))
    d = core.scratch("replay")
    f = os.path.join(d, "stored.ndjson")
    open(f, "w").write("\n".join(v["history"]) + "\n")
    r = core.tlc(v["spec"], v["consts"], {"TRACE": f}, d)
    print("stored recording:", "rejected at line %s" % r.rejected if r.rejected else "accepted")
    if v.get("harness"):
        b = core.recorder(v["harness"], bool((v.get("args") or {}).get("guarded")))
        a = dict(v["args"])
        a["out"] = os.path.join(d, "again.ndjson")
        a["only"] = json.loads(v["history"][0]).get("id", 0)
        core.run_bin(b, a)
        r = core.tlc(v["spec"], v["consts"], {"TRACE": a["out"]}, d)
        print("current tree:", "rejected at line %s" % r.rejected if r.rejected else "accepted")
    return 1 if r.rejected else 0


def main():
    if len(sys.argv) >= 3 and sys.argv[1] == "--replay":
        return replay(sys.argv[2])
    if len(sys.argv) >= 2 and sys.argv[1] == "--build":
        core.build(*props.HARNESSES)
        return 0
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    c = core.Check(prop, tier, seed)
    try:
        props.RUN[prop](c)
        return c.finish()
    except core.CheckError as e:
        if c.violations:  # what was found stands, whatever came after it
            return c.finish()
        print("ERROR property=%s %s" % (prop, e), file=sys.stderr)
        return 3


if __name__ == "__main__":
    try:
        rc = main()
    except Exception as e:  # noqa
        import traceback
        traceback.print_exc()
        rc = 3
    sys.exit(rc)
