#!/bin/bash
# replay.sh CASEFILE: runs a recorded counterexample against the current /repo, natively, with sanitizers.
set -eu
H=$(cd "$(dirname "$0")" && pwd); read -r w b < "$1"; [ "$w" = build ]
d=$(mktemp -d); trap 'rm -r -- "$d"' EXIT
x="-fwrapv -fno-sanitize=signed-integer-overflow,shift,float-cast-overflow"; case "$b" in *-strict) x=-D_GLIBCXX_ASSERTIONS;; esac
g++-14 -w -g1 -O1 -fsanitize=address,undefined -fno-sanitize-recover=all $x -I"$H/harness" -I/repo/sources -std=c++20 "$H/harness/${b%-strict}.cpp" "$H/harness/replay.cpp" -o "$d/n"
"$d/n" "$1"
