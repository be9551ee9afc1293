#!/bin/bash
# try.sh PROP [runs] [budget] [extra args]: quick local run
cd ${VV:-/verif} && S=$(./build.sh) && P=$1; R=${2:-40000}; B=${3:-20}; shift; shift; shift; mkdir -p /tmp/rp; timeout 200 $S --prop $P --seed ${SEED:-3} --runs $R --jobs 8 --budget $B --evidence /tmp/e-$P.json --replay-dir /tmp/rp --known KNOWN_FINDINGS "$@" | tail -${L:-45}; echo rc ${PIPESTATUS[0]}
