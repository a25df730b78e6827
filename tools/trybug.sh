#!/bin/bash
# trybug.sh ID [PROP]: demo on the clean tree, then stable tests, demo and check with the patch applied. Not a registered check.
id=$1; d=${BUGOUT:-/verif/seeded}/$id; R=${BUGREPO:-/repo}; V=${BUGVERIF:-/verif}; P=${2:-$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")}
cd $R; [ -z "$(git status --porcelain)" ] || { echo dirty; exit 2; }
bash $d/demo.sh >/tmp/d0 2>&1; a=$?
git apply $d/patch.diff || exit 3
bash $d/demo.sh >/tmp/d1 2>&1; b=$?
t=skip
if [ "$R" != /repo ]; then
t=$(PYTHONPATH=$R MPLBACKEND=Agg OMP_NUM_THREADS=1 /opt/venv/bin/python -m pytest -q -p no:cacheprovider tests 2>&1 | tail -1 | cut -c1-60 | tr ' ' _)
elif [ -z "$NOTEST" ]; then
bash /opt/vp/test.sh /tmp/o.json >/dev/null 2>&1
t=$(python3 -c "
import json;o=json.load(open('/tmp/o.json'));b=json.load(open('/opt/vp/BASELINE.json'))
print(len(set(b['stable'])-set(o['passed'])))")
fi
s=$(date +%s)
VERIF_SEED=1 VERIF_TIER=quick bash $V/check.sh $P >/tmp/c1 2>&1; c=$?
git -C $R checkout -- .
echo "$id $P demo0=$a demo1=$b testsfail=$t check=$c $(( $(date +%s)-s ))s :: $(tail -1 /tmp/d1|cut -c1-60) :: $(grep -m1 VIOLATION /tmp/c1|cut -c1-80)"
