bash /opt/vp/build.sh >/tmp/b.log 2>&1 || { echo BUILD FAIL; tail -30 /tmp/b.log; exit 1; }
bash /opt/vp/test.sh /tmp/o.json >/tmp/t.log 2>&1
python3 - <<'P'
import json
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); o=json.load(open('/tmp/o.json'))
m=b-set(o['passed']); print('stable missing:',sorted(m) , 'passed',len(o['passed']),'failed',len(o['failed']))
P
