#!/bin/bash
# seedcheck.sh ID...: for each planted bug in seeded/ID, in a scratch copy of
# /repo: does it build, do the stable tests pass, does its demonstration tell
# the two trees apart, and does the check of its property catch it?
# SKIP_DEMO=1 leaves out the first three.
here=$(cd "$(dirname "${BASH_SOURCE[0]}")/.." && pwd)
one() {
    id=$1
    s=$(mktemp -d /tmp/seedcheck.XXXXXX)
    trap 'rm -rf "$s"' EXIT
    cp -a /repo "$s/repo"
    cd "$s/repo" || exit 2
    out=""
    d=$here/seeded/$id
    prop=$(python3 -c 'import json,sys; print(json.load(open(sys.argv[1]))["property"])' "$d/meta.json")
    git apply --check "$d/patch.diff" 2>"$s/err" || { echo "$id: DOES NOT APPLY $(head -c 200 "$s/err")"; exit; }
    if [ -z "$SKIP_DEMO" ]; then
        mkdir "$s/demo"; cp "$d"/* "$s/demo/"; rm -f "$s/demo/"*.diff "$s/demo/meta.json"
        bash "$s/demo/demo.sh" >"$s/demo0" 2>&1; r0=$?
        git apply "$d/patch.diff"
        bash "$s/demo/demo.sh" >"$s/demo1" 2>&1; r1=$?
        [ $r0 = 0 ] || { out="$out demo-fails-clean"; tail -5 "$s/demo0"; }
        [ $r1 != 0 ] || out="$out demo-passes-patched"
        grep -q 'build failed\|setup failed' "$s/demo1" && { out="$out demo-no-build"; tail -5 "$s/demo1"; }
        mkdir -p "$s/vp/cache" "$s/vp/tmp"; cp -a /opt/vp/gocache/. "$s/vp/cache/"
        # the stable tests, in the scratch copy
        ( . /opt/vp/env.sh; export GOCACHE=$s/vp/cache GOTMPDIR=$s/vp/tmp; cd "$s/repo/src"
          go build ./collection ./util 2>&1 && go build -o "$s/vp/pk" main/pkeygen.go 2>&1 || echo BUILD-FAILS
          go test -json -vet=off -count=1 -timeout 5m ./collection ./util > "$s/log" 2>&1 )  | tail -3 | grep . && out="$out build?"
        miss=$(python3 - "$s/log" <<'PY'
import json,sys
st=[t.split('::')[-1].split('.')[-1].split('/')[-1] for t in (lambda b: b if isinstance(b,list) else b.get('stable',b.get('tests',b.get('pass',[]))))(json.load(open('/opt/vp/BASELINE.json')))]
p=set()
for l in open(sys.argv[1]):
    try: e=json.loads(l)
    except Exception: continue
    if e.get('Action')=='pass' and e.get('Test'): p.add(e['Test'])
print(' '.join(t for t in st if t not in p))
PY
)
        [ -z "$miss" ] || out="$out stable-tests-fail:[$miss]"
    else
        git apply "$d/patch.diff"
    fi
    t0=$(date +%s)
    VERIF_REPO=$s/repo timeout 900 bash "$here/run.sh" "$prop" ${TIER:-quick} >"$s/check" 2>&1; rc=$?
    t1=$(date +%s)
    if [ $rc = 1 ] && grep -q "^VIOLATION property=$prop " "$s/check"; then c=caught; else c="MISSED(rc=$rc)"; fi
    echo "$id: $prop $c $((t1-t0))s$out"
    [ -z "$VERBOSE" ] || tail -20 "$s/check"
}
for id in "$@"; do ( one "$id" ); done
