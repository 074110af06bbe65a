#!/bin/bash
# run.sh PROPERTY [quick|thorough] [--replay FILE | further flags of the harness]
#
# Builds the harness in /verif/harness against /repo's current working tree
# and runs one property. Exit 0: held, 1: violation, 2: no answer.

here=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
id=$1
tier=${VERIF_TIER:-quick}
shift
case "$1" in
quick | thorough)
    tier=$1
    shift
    ;;
esac
[ -n "$id" ] || { echo "usage: run.sh PROPERTY [quick|thorough] [--replay FILE]" >&2; exit 2; }

seed=${VERIF_SEED:-1}
case "$seed" in '' | *[!0-9]*) seed=1 ;; esac

scratch=$(mktemp -d "${TMPDIR:-/tmp}/verif-$id-XXXXXX") || exit 2
case "$scratch" in /*) ;; *) exit 2 ;; esac
cleanup() { rm -rf -- "$scratch"; }
trap cleanup EXIT
trap 'exit 2' INT TERM HUP

[ "$id" = C30 ] && export VERIF_PKEYGEN=1
[ "$id" = C36 ] && export VERIF_BUILDFLAGS=-race
"$here/build.sh" "$scratch" || { echo "verif: $id: cannot build" >&2; exit 2; }

mkdir -p "$here/evidence"
"$scratch/harness" -prop "$id" -tier "$tier" -seed "$seed" \
    -scratch "$scratch/work" -known "$here/KNOWN_FINDINGS.txt" \
    -evidence "$here/evidence/$id.json" -replays "$here/replays" \
    "$@"
rc=$?
case $rc in 0 | 1) exit $rc ;; *) exit 2 ;; esac
