#!/bin/bash
# Checks that everything the checks need is there, by building them once.
here=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
out=$(mktemp -d) || exit 3
"$here/check.sh" build "$out"
rc=$?
case $out in /tmp/*) rm -rf "$out" ;; esac
exit $rc
