#!/bin/bash
# development helper: run the runtime contracts of a property on a scratch build
# usage: tools/rt.sh PROP [SEED] [TIER] [CAP] [SCRATCH]
P=$1; S=${2:-1}; T=${3:-quick}; C=${4:-60}; D=${5:-/tmp/vqdev}
[ -d $D/qmeq ] || python3 -c "import sys; sys.path.insert(0,'/verif'); from vq import build; import os; os.makedirs('$D',exist_ok=True); print(build.prepare('$D'))"
N=8; O=$(mktemp -d /tmp/rt.XXXX)
for i in $(seq 0 $((N-1))); do
 PYTHONPATH=/verif:$D PYTHONDONTWRITEBYTECODE=1 OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=2 /opt/venv/bin/python -m vq.rt.worker $P $S $T $i $N $C $O/$i &
done; wait
python3 - $O <<'PY'
import json,sys,glob
r=[json.load(open(f)) for f in glob.glob(sys.argv[1]+'/?')]
print('n',sum(x['n'] for x in r),'nontriv',sum(x['nontrivial'] for x in r),'skip',sum(x['skipped'] for x in r),'viol',sum(len(x['violations']) for x in r),'harness',sum(len(x['harness']) for x in r),'wall',max(x['wall'] for x in r), 'complete',[x['complete'] for x in r].count(True), 'workers',len(r))
for x in r:
  for v in x['violations'][:2]: print('V',v['index'],v['message'][:600]); print('   ',json.dumps(v['case'])[:700])
  for v in x['harness'][:2]: print('H',v['index'],v['message'][:500])
PY
ls $O | grep cur && echo CRASHED
