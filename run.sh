#!/bin/bash
# run.sh <property> quick|thorough   decide a property on /repo's working tree
# run.sh replay <file>               execute a replay file
# run.sh show <property> <index>     tell the story of one run
# run.sh build [race]                only build
#
# Everything is rebuilt from /repo's current sources, through a build overlay
# that puts the simulator's seams around them; /repo itself is not touched.
set -u
here=$(cd "$(dirname "$0")" && pwd)
export HOME=${HOME:-/root}
[ -d /opt/veriftools/go1.27.3/bin ] && export PATH=/opt/veriftools/go1.27.3/bin:$PATH
export GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOFLAGS=-mod=mod GOWORK=off
unset GOROOT GODEBUG GOEXPERIMENT 2>/dev/null
repo=${SIM_REPO:-/repo}
out=${SIM_OUT:-$here/build}

race=
prop=${1:-}
case "$prop" in
  build) [ "${2:-}" = race ] && race=-race ;;
  replay) grep -q '"race_build": true' "$2" && race=-race ;;
  C02) race=-race ;;
  show) [ "$2" = C02 ] && race=-race ;;
esac

build() {
  mkdir -p "$out" && cd "$here/sim" || return 1
  sed "s|=> /repo|=> $repo|" go.mod >"$out/go.mod" && cp go.sum "$out/" || return 1
  go build -modfile="$out/go.mod" -o "$out/instr" ./cmd/instr || return 1
  rm -rf "${out:?}/ov$race.new"
  "$out/instr" $race -repo "$repo" -sim "$here/sim" -out "$out/ov$race" >"$out/instr$race.log" 2>&1 || { cat "$out/instr$race.log"; return 1; }
  mkdir -p "$out/bin$race"
  go build $race -modfile="$out/go.mod" -overlay "$out/ov$race/overlay.json" -o "$out/bin$race/sim" ./cmd/sim || return 1
  mkdir -p "$out/bin$race/ov" && cp "$out/ov$race/sites.json" "$out/bin$race/ov/" || return 1
}

if ! build; then
  echo "run.sh: cannot build the simulation of $repo" >&2
  exit 2
fi
cd "$here"
sim=$out/bin$race/sim
case "$prop" in
  build) exit 0 ;;
  replay) exec "$sim" replay "$2" ;;
  show) exec "$sim" show -prop "$2" -i "$3" ;;
  *)
    mkdir -p "$here/evidence" "$out/runs/$prop"
    exec "$sim" drive -prop "$prop" -tier "${2:-quick}" -dir "$out/runs/$prop" \
      -evidence "$here/evidence/$prop.json" -known "$here/known-findings.txt" ;;
esac
