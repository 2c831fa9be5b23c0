#!/bin/bash
# tools/seeds.sh [-x IDS...] [SEED...]   runs each planted bug against the check of its own
# property (or against the checks given after -x) and prints one line per bug.
here=$(cd "$(dirname "${BASH_SOURCE[0]}")/.." && pwd)
ids=()
if [ "${1:-}" = -x ]; then shift; while [ $# -gt 0 ] && [[ $1 == C* ]]; do ids+=("$1"); shift; done; fi
[ $# -gt 0 ] || set -- $(ls "$here/seeded")
for s in "$@"; do
    p=("${ids[@]}")
    [ ${#p[@]} -gt 0 ] || p=($(sed -n 's/.*"property": "\(C[0-9]*\)".*/\1/p' "$here/seeded/$s/meta.json"))
    "$here/tools/against.sh" "$here/seeded/$s/patch.diff" "${p[@]}" | sed "s/^/$s: /"
done
