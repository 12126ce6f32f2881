"""Nothing is built: shows that what the checks need is there."""
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.path.insert(0, os.environ.get("RTMON_REPO", "/repo"))
import json  # noqa: E402
import tempfile  # noqa: E402

with tempfile.TemporaryDirectory() as d:
    from rtmon import env
    os.environ.update(env.prepare(d))
    import matplotlib  # noqa
    import numpy  # noqa
    import raytracing  # noqa
for name in sorted(json.load(open(os.path.join(HERE, "rtmon", "plan.json")))):
    __import__("rtmon.checks." + name.lower())
print("ready: raytracing at", raytracing.__file__)
