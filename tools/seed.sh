#!/bin/bash
# seed.sh ID [nocheck] : validates seeded/ID in a scratch copy, then runs its property's check against it.
set -u
id=$1; d=/verif/seeded/$id
export PATH=/opt/veriftools/go1.27.3/bin:$PATH GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod
w=$(mktemp -d /tmp/seed-XXXXXX); trap 'rm -rf -- "$w"' EXIT
cp -a /repo "$w/repo"; cp -r "$d" "$w/seed"; rm -f "$w/seed/patch.diff" "$w/seed/meta.json"
cd "$w/repo" && git checkout -q -- . 
bash "$w/seed/demo.sh" >"$w/d0" 2>&1 || { echo "$id: demo fails on the unchanged tree"; tail -20 "$w/d0"; exit 1; }
git apply "$d/patch.diff" || { echo "$id: patch does not apply"; exit 1; }
go vet . >/dev/null 2>&1; go build . || { echo "$id: does not build"; exit 1; }
go test -count=1 -json . 2>/dev/null | python3 -c "
import sys,json
b=json.load(open('/opt/vp/BASELINE.json'))
names=b.get('stable') or b.get('tests') or b.get('passed') or b
f=[ (json.loads(l)['Action'],json.loads(l).get('Test')) for l in sys.stdin if l.startswith('{')]
bad=[t for a,t in f if a=='fail']; ok=sum(1 for a,t in f if a=='pass' and t)
print('tests passed',ok,'failed',bad); sys.exit(1 if bad or ok<60 else 0)" || { echo "$id: tests notice it"; exit 1; }
bash "$w/seed/demo.sh" >"$w/d1" 2>&1 && { echo "$id: demo passes with the patch"; exit 1; }
# lines of the original repository
python3 - "$d/patch.diff" <<'P'
import sys,re,subprocess
f=None;ok=0;tot=0
for l in open(sys.argv[1]):
    if l.startswith('--- a/'): f=l[6:].strip()
    m=re.match(r'@@ -(\d+)',l)
    if m: n=int(m.group(1)); continue
    if l.startswith('---') or l.startswith('+++'): continue
    if f and l.startswith('-'):
        b=subprocess.run(['git','-C','/repo','blame','-l','-L',f'{n},{n}','--',f],capture_output=True,text=True).stdout
        tot+=1; ok+=b.startswith('^') ; n+=1
    elif f and l.startswith(' '): n+=1
print('original lines removed: %d of %d'%(ok,tot))
P
[ "${2:-}" = nocheck ] && exit 0
p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
# the engine reads /repo by default; run it against the scratch copy here
t0=$(date +%s)
git -C /repo apply "$d/patch.diff" || exit 1
(cd /verif && ./check.sh $p) >"$w/out" 2>&1; rc=$?
git -C /repo checkout -q -- .
echo "$id: $p exit $rc in $(( $(date +%s)-t0 )) s"; grep -m3 "VIOLATION\|confirmed\|ERROR" "$w/out" | cut -c1-300
[ $rc = 1 ] && exit 0 || { tail -5 "$w/out" | cut -c1-300; exit 1; }
