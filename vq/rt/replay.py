"""python -m vq.rt.replay PROP CASEFILE: judge one case on the real code."""
import json, sys
from . import worker
with open(sys.argv[2]) as f:
    case = json.load(f)
v, m = worker.judge(worker.load(sys.argv[1]), case)
print()
print(json.dumps({'verdict': v, 'message': m}))
