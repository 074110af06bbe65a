#!/bin/bash
# Checks build what they need themselves; this only shows that it can be done.
here=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
scratch=$(mktemp -d "${TMPDIR:-/tmp}/verif-setup-XXXXXX") || exit 2
trap 'rm -rf -- "$scratch"' EXIT
VERIF_PKEYGEN=1 "$here/build.sh" "$scratch" && "$scratch/harness" -list
