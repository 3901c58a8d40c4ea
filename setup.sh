#!/bin/bash
# Compile the TLC operator overrides (pure speed; the TLA+ definitions are the reference) and check they agree.
set -e
cd "$(dirname "$0")"
mkdir -p build
J=/opt/veriftools/tla
javac -cp $J/tla2tools.jar -d build java/*.java
D=$(mktemp -d)
: > $D/w.cfg
for v in 1 2; do
  cp="$J/tla2tools.jar:$J/CommunityModules-deps.jar"; [ $v = 2 ] && cp="$cp:build"
  java -Xss64m -Djava.io.tmpdir=$D -cp "$cp" tlc2.TLC -nowarning -metadir $D/m$v -config $D/w.cfg spec/Word64Check.tla | sed -n '/DIGEST/,/^Finished/p' | grep -v Finished > $D/o$v
done
grep -q DIGEST $D/o1
cmp $D/o1 $D/o2
rm -r -- "$D"
echo setup ok
