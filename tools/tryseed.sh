#!/bin/bash
# tryseed.sh ID [notest]: confirms a planted change in a scratch copy: demo fails with it and passes without it, stable tests pass, and says which checks report it
id=$1; W=/tmp/wt-$id; D=/verif/seeded/$id
rm -rf "$W"; cp -a /repo "$W"; git -C "$W" checkout -q -- . ; git -C "$W" apply "$D/patch.diff" || { echo "$id: NO-APPLY"; exit 1; }
L=/tmp/seedlog-$id; rm -rf $L; mkdir -p $L
bash "$D/demo.sh" >$L/clean.log 2>&1; clean=$?
unshare -Urm bash -c "mount --bind $W /repo && cd /repo && bash /opt/vp/build.sh >$L/build.log 2>&1 || exit 99; cp -r $D $L/d; cd /repo; bash $L/d/demo.sh >$L/demo.log 2>&1; echo \$? >$L/demo.rc; [ '$2' = notest ] || bash /opt/vp/test.sh $L/out.json >$L/test.log 2>&1"
for p in $(python3 -c "import json;print(' '.join(c['property'] for c in json.load(open('/verif/MANIFEST.json'))['checks']))"); do
  unshare -Urm bash -c "mount --bind $W /repo && cd /verif && VERIF_EVIDENCE=$L python3 check.py $p" > $L/check-$p.log 2>&1; rc=$?
  [ $rc -ne 0 ] && caught="$caught $p($rc)"
done
tests=skipped
[ -f $L/out.json ] && tests=$(python3 - $L/out.json <<'P'
import json,sys
o=json.load(open(sys.argv[1])); b=set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
p=set(o.get('passed',o.get('pass',[])) )
m=b-p
print('pass' if not m else 'FAIL %d e.g. %s'%(len(m),sorted(m)[:4]))
P
)
echo "$id: clean=$clean demo=$(cat $L/demo.rc 2>/dev/null) tests=$tests caught=[$caught ]"
rm -rf "$W"
