#!/bin/bash
# Behaviour-preserving refactorings (quiet/*.diff) must leave every quick check quiet.
# usage: tools/quiet.sh [C01 C02 ...]      uses a scratch copy of /repo
here=$(cd "$(dirname "$0")/.." && pwd)
props=${*:-$(seq -f C%02g 1 22)}
work=$(mktemp -d /tmp/quiet.XXXXXX)
trap 'rm -rf "$work"' EXIT
for d in "$here"/quiet/*.diff; do
    cp -a /repo "$work/repo"
    git -C "$work/repo" apply "$d" || exit 2
    for p in $props; do
        VERIF_REPO=$work/repo python3 "$here/check.py" --property "$p" --no-evidence > "$work/out" 2>&1
        rc=$?
        [ $rc = 0 ] && echo "$(basename "$d") $p quiet" || { echo "$(basename "$d") $p rc=$rc"; grep -m3 VIOLATION "$work/out"; }
    done
    rm -rf "$work/repo"
done
