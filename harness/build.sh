#!/bin/bash
# build.sh OUTDIR [-DWITH_x ...] -- FILES: build the driver from /repo's working tree.
# REPO overrides the tree (used on scratch copies while developing).
set -e
out=$1; shift
REPO=${REPO:-/repo}
H=$(cd "$(dirname "$0")" && pwd)
mkdir -p "$out/o"
defs=(); files=(); lib=()
for a in "$@"; do case $a in -*) defs+=("$a");; *) files+=("$a");; esac; done
cd "$REPO/cxx"
for f in distributions/*.cc emissions/*.cc *.cc pclean/*.cc; do
  case $f in *_test.cc|*_main.cc|typename_playground.cc|pclean/pclean.cc) continue;; esac
  lib+=("$f")
done
flags="-std=c++20 -O1 -w -iquote $REPO/cxx -iquote $H ${CXXEXTRA:-}"
{
  for f in "${lib[@]}"; do echo "$REPO/cxx/$f lib_$(echo "$f" | tr / _).o"; done
  for f in "${files[@]}"; do echo "$H/$f h_$f.o"; done
  # the command line programs
  echo "$REPO/cxx/hirm_main.cc main_hirm.o"; echo "$REPO/cxx/pclean/pclean.cc main_pclean.o"
} > "$out/jobs"
xargs -P 8 -L 1 sh -c 'g++ '"$flags ${defs[*]}"' -c "$0" -o "'"$out"'/o/$1"' < "$out/jobs"
objs() { awk -v d="$out/o/" -v p="$1" '$2 ~ p {print d $2}' "$out/jobs"; }
g++ -o "$out/driver" $(objs '^(lib|h)_') ${LDEXTRA:-} &
for m in hirm pclean; do g++ -o "$out/$m" $(objs '^lib_') "$out/o/main_$m.o" ${LDEXTRA:-}; done
wait $!
