#!/bin/bash
# Dev tool: soak.sh SEED SECONDS [PROPS...]: run the replay layer alone, one process per property.
cd "$(dirname "$0")/.."; seed=$1; secs=$2; shift 2
props=${@:-C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C15 C16 C17 C18 C19 C20 C21}
mkdir -p /tmp/w/soak
echo $props | tr ' ' '\n' | PYTHONPATH=$PWD:/repo/src MPLBACKEND=Agg PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 xargs -P 7 -I{} /opt/venv/bin/python -W ignore -m vp.cases {} $seed 0 1 $secs - /tmp/w/soak/{}_$seed.json >/dev/null 2>&1
for p in $props; do python3 -c "
import json; d=json.load(open('/tmp/w/soak/${p}_$seed.json')); print('$p', d['ok'], d['skip'], str(d['skips'])[:200], 'FAIL' if d['fail'] else '', [f['message'] for f in d['fail']][:2], d['errors'][:2])"; done
