#!/bin/bash
# Runs the demonstration beside this file against the tree in the current directory.
here=$(cd "$(dirname "$0")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh >/dev/null 2>&1
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
cp go.mod go.sum "$t/"
python3 - "$here" "$PWD" > "$t/ov.json" <<'P'
import json, os, sys
here, repo = sys.argv[1:]
r = {}
pkg = open(os.path.join(here, "package")).read().strip()
for d, dst in (("stack", "verifx/stack"), ("demo", pkg)):
    for f in os.listdir(os.path.join(here, d)) if os.path.isdir(os.path.join(here, d)) else []:
        r[os.path.join(repo, dst, f)] = os.path.join(here, d, f)
print(json.dumps({"Replace": r}))
P
export TMPDIR="$t" GOFLAGS=-mod=mod GOPROXY=off
go test -c -vet=off -overlay "$t/ov.json" -modfile "$t/go.mod" -o "$t/demo.test" "./$(cat "$here/package")" > "$t/out" 2>&1
if [ ! -x "$t/demo.test" ]; then tail -c 2000 "$t/out"; exit 2; fi
cd "$t"
for try in 1 2 3; do
  timeout 90 ./demo.test -test.run "^TestDemo" -test.timeout 80s > "$t/out" 2>&1
  rc=$?
  grep -q "invalid point" "$t/out" || break   # a rare failure of the storage library when accounts are created
done
tail -c 2000 "$t/out"
exit $rc
