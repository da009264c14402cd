#!/bin/bash
# exit 0: behaves as it should; non-zero: the property is broken
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
gcc -w -g -I "$d" -I scantool -I _build -I _build/scantool -DCURFILE='"demo"' "$d/demo.c" -o "$t/demo" \
	-Wl,--start-group _build/scantool/libfreediagcli.a _build/scantool/libcli.a _build/scantool/libdyno.a _build/scantool/libdiag.a -Wl,--end-group -lm -lpthread -lrt -lreadline || exit 2
cd "$t" && timeout 60 ./demo
