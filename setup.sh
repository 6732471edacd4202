#!/bin/sh
# Checks that the tools are there and that every module of the specification parses.
cd "$(dirname "$0")" || exit 1
for t in java python3 go strace; do command -v $t >/dev/null || { echo "missing $t"; exit 1; }; done
d=$(mktemp -d)
cp spec/*.tla "$d" && cd "$d" || exit 1
for m in *.tla; do
  java -Djava.io.tmpdir="$d" -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tla2sany.SANY "$m" > "$m.out" 2>&1 || { cat "$m.out"; rm -r "$d"; exit 1; }
done
rm -r "$d"
echo "specification parses"
