#!/bin/bash
# tools/against.sh PATCH|-R:COMMIT ID...   runs checks against a scratch copy of /repo with a
# patch applied (or a commit reverted), and prints one line per check.
here=$(cd "$(dirname "${BASH_SOURCE[0]}")/.." && pwd)
p=$1; shift
s=$(mktemp -d /tmp/morehttp-against.XXXXXX)
trap 'rm -rf "$s"' EXIT
cp -a /repo "$s/repo"
case $p in
-R:*) git -C "$s/repo" revert --no-edit "${p#-R:}" >/dev/null 2>&1 || git -C "$s/repo" show "${p#-R:}" | git -C "$s/repo" apply -R --3way || { echo "cannot revert"; exit 3; } ;;
*) git -C "$s/repo" apply "$(realpath "$p")" || exit 3 ;;
esac
cp -a "$here" "$s/verif"
for id in "$@"; do
    out=$(cd "$s/verif" && REPO=$s/repo ./check.sh run "$id" 2>&1); rc=$?
    case $rc in
    0) echo "$id quiet" ;;
    1) echo "$id CAUGHT: $(echo "$out" | grep -m1 "target" | cut -c1-260)" ;;
    *) echo "$id ERROR $rc: $(echo "$out" | tail -3)" ;;
    esac
done
