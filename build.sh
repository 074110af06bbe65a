#!/bin/bash
# build.sh SCRATCH: builds the harness against /repo's working tree into
# SCRATCH/harness (and the key generator into SCRATCH/pkeygen), and writes
# nothing outside SCRATCH.

here=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
scratch=$1
repo=${VERIF_REPO:-/repo}
[ -d "$scratch" ] || exit 2
mkdir -p "$scratch/work" "$scratch/etc" "$scratch/gocache" "$scratch/overlay" "$scratch/tmp" || exit 2

. /opt/vp/env.sh
# the compiled standard library saves most of the build time, if it is there
if [ -d "$GOCACHE" ]; then cp -a "$GOCACHE/." "$scratch/gocache/" 2>/dev/null; fi
export GOCACHE=$scratch/gocache GOTMPDIR=$scratch/tmp GOFLAGS=-buildvcs=false

# The code under test keeps keys in a directory of the system. The overlay has
# it built with a directory of this run instead.
python3 - "$here" "$repo" "$scratch" <<'PY' || exit 2
import glob, json, os, re, sys
here, repo, scratch = sys.argv[1:4]
repl = {}
for f in glob.glob(os.path.join(here, "harness", "*.go")):
    repl[os.path.join(repo, "src", "verifharness", os.path.basename(f))] = f
found = 0
for f in sorted(glob.glob(os.path.join(repo, "src", "util", "*.go"))):
    if f.endswith("_test.go"):
        continue
    text = open(f, encoding="utf-8").read()
    new, n = re.subn(r'(?m)^(\s*(?:const\s+|var\s+)?DEFAULT_ETC_DIR\s*(?:string)?\s*=\s*)"[^"\n]*"',
                     lambda m: m.group(1) + json.dumps(os.path.join(scratch, "etc")), text)
    found += n
    # and its temporary log file
    new, k = re.subn(r'"/tmp/"', lambda m: json.dumps(os.path.join(scratch, "tmp") + "/"), new)
    if n or k:
        out = os.path.join(scratch, "overlay", os.path.basename(f))
        open(out, "w", encoding="utf-8").write(new)
        repl[f] = out
if found != 1:
    print("verif: DEFAULT_ETC_DIR is declared %d times, expected 1" % found, file=sys.stderr)
    sys.exit(1)
json.dump({"Replace": repl}, open(os.path.join(scratch, "overlay.json"), "w"))
PY

cd "$repo/src" || exit 2
go build $VERIF_BUILDFLAGS -overlay "$scratch/overlay.json" -o "$scratch/harness" ./verifharness || exit 2
if [ -n "$VERIF_PKEYGEN" ]; then
    go build -overlay "$scratch/overlay.json" -o "$scratch/pkeygen" main/pkeygen.go || exit 2
fi
exit 0
