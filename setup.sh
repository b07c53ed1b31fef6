#!/bin/bash
# Everything is built by the checks themselves, from /repo's current tree; this only tests the toolchain.
set -e
cd "$(dirname "$0")"
d=$(mktemp -d)
trap 'rm -rf "$d"' EXIT
javac -cp /opt/veriftools/tla/tla2tools.jar -d "$d" java/NumReal.java
g++ --version | head -1

echo ok
