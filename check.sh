#!/bin/bash
# check.sh ID: build the libraries this check needs from /repo's working tree, explore, report.
# check.sh --setup: build the explorer only.  check.sh --replay FILE: run one recorded case.
cd "$(dirname "$0")" || exit 2
V=$PWD
R=${VF_REPO:-/repo}
export PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export ASAN_OPTIONS=detect_leaks=0:allocator_may_return_null=1 UBSAN_OPTIONS=print_stacktrace=0
unset MAKEFLAGS CXXFLAGS CFLAGS CPATH VF_NOHOOKS
mkdir -p build evidence replays || exit 2

driver() { # target
  ( flock 9; make -s -j8 -C engine ../build/$1 >build/$1.log 2>&1 ) 9>build/lock || { cat build/$1.log >&2; return 1; }
}
# lib SRC OUT FLAGS...: every .cc of SRC as one shared library
lib() {
  local src=$1 out=$2 d=$2.d rc=0 f p; shift 2
  mkdir -p $d
  local pids=()
  for f in $src/*.cc; do g++ -w -fPIC "$@" -c "$f" -o $d/$(basename "$f").o 2>>$d/log & pids+=($!); done
  for p in "${pids[@]}"; do wait $p || rc=1; done
  [ $rc = 0 ] && g++ -shared "$@" -o $out $d/*.o 2>>$d/log || rc=1
  [ $rc = 0 ] || LOG=$(tail -5 $d/log)
  return $rc
}
# hooked NAME SRC FLAGS...: with the hooks, or without them where they do not compile
hooked() {
  local name=$1 src=$2; shift 2
  if [ -z "$VF_NOHOOKS" ]; then
    lib $src $T/$name.so -DMVL_VERIF "$@" && return 0
    echo "note: built without the hooks ($LOG)" >&2
    export VF_NOHOOKS=1
  fi
  lib $src $T/$name-plain.so "$@" && mv $T/$name-plain.so $T/$name.so && return 0
  echo "cannot build $src: $LOG" >&2
  return 1
}

if [ "$1" = --setup ]; then driver vf && driver vf-san; exit; fi
ID=$1
if [ "$1" = --replay ]; then F=$(realpath "$2") || exit 2; ID=$(sed -n 's/^property //p' "$F" | head -1); fi
T=$(mktemp -d $V/build/run.XXXXXX) || exit 2
trap 'rm -rf "$T"' EXIT
VF=vf
OPT=(-O1 -g -fno-unreachable-traps)
if [ "$ID" = C29 ]; then
  VF=vf-san
  OPT=(-O1 -g -D_GLIBCXX_ASSERTIONS -fsanitize=address,undefined -fno-sanitize-recover=all)
fi
driver $VF || exit 2
hooked s $R/src "${OPT[@]}" && hooked b $R/bitvec "${OPT[@]}" || exit 2
LIBS=(--src $T/s.so --bit $T/b.so)
case $ID in
C31|C01|C02|C03|C26)  # as shipped: optimised, no hooks
  lib $R/src $T/so.so -O3 && lib $R/bitvec $T/bo.so -O3 || { echo "cannot build: $LOG" >&2; exit 2; }
  LIBS+=(--src-o $T/so.so --bit-o $T/bo.so);;
esac
if [ "$1" = --replay ]; then
  build/$VF --replay "$F" "${LIBS[@]}"
  exit
fi
build/$VF $ID --tier ${VERIF_TIER:-quick} --seed ${VERIF_SEED:-1} "${LIBS[@]}" --known known_findings.txt \
  --evidence evidence/$ID.json --out $V/replays
