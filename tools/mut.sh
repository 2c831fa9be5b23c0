#!/bin/bash
# tools/mut.sh FILE SEDEXPR ID...   runs checks against a scratch copy with a sed edit applied
here=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
f=$1; e=$2; shift 2
d=$(mktemp -d /tmp/morehttp-mut.XXXXXX)
trap 'rm -rf "$d"' EXIT
cp -a /repo "$d/repo"
sed -i "$e" "$d/repo/$f"
git -C "$d/repo" diff >"$d/p"
[ -s "$d/p" ] || { echo "no change: $e"; exit 3; }
(cd "$d/repo" && PATH=/opt/veriftools/go1.27.3/bin:$PATH GOTOOLCHAIN=local go build ./... ) || exit 3
echo "== $f: $e"
"$here/against.sh" "$d/p" "$@"
