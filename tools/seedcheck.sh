#!/bin/bash
# tools/seedcheck.sh ID [notest]: confirm a planted bug in a scratch copy of /repo
id=$1; here=$(cd "$(dirname "$0")/.." && pwd); d=$here/seeded/$id
s=$(mktemp -d /tmp/seed_${id}_XXXX); cp -a /repo $s/repo; cp -a $d $s/demo; rm -f $s/demo/patch.diff $s/demo/meta.json
export HOME=$s LANG=C.UTF-8 PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg MPLCONFIGDIR=$s/mpl OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1 PYTHONPATH=$s/repo
cd $s/repo
timeout 300 bash $s/demo/demo.sh >$s/d0 2>&1; r0=$?
git apply $d/patch.diff || { echo "$id: PATCH DOES NOT APPLY"; rm -rf $s; exit 1; }
timeout 300 bash $s/demo/demo.sh >$s/d1 2>&1; r1=$?
lost=skipped
if [ "$2" != notest ]; then
py="/opt/venv/bin/python -m pytest -p h5py -q -p no:cacheprovider --timeout=300 --randomly-seed=1 --randomly-dont-reorganize --continue-on-collection-errors --tb=short -o junit_family=xunit2"
$py -o python_files='test*.py' --junitxml=$s/t.xml hftools >/dev/null 2>&1
$py --doctest-modules --junitxml=$s/dt.xml hftools/math.py hftools/utils.py hftools/dataset/arrayobj.py >/dev/null 2>&1
/usr/bin/python3 /opt/vp/results.py $s/out.json junit:$s/t.xml junit:$s/dt.xml >/dev/null 2>&1
lost=$(python3 -c "
import json
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('$s/out.json'))
bp=set(b.get('passed') or b.get('tests') or b.get('stable')); l=sorted(bp-set(o['passed']))
print(len(l), l[:4])")
fi
prop=$(python3 -c "import json; print(json.load(open('$d/meta.json'))['property'])")
unset PYTHONPATH
MC_REPO=$s/repo MC_EVIDENCE=$s/ev timeout 900 bash $here/bin/check $prop --tier quick >$s/c 2>&1; rc=$?
echo "$id: demo unchanged=$r0 patched=$r1 | tests lost: $lost | $prop rc=$rc $(grep -c '^VIOLATION property='$prop $s/c) violation line(s): $(grep '^space' $s/c | cut -c1-150)"
[ $r0 = 0 ] || tail -3 $s/d0; [ $r1 != 0 ] || tail -3 $s/d1
rm -rf $s
