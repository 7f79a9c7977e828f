#!/bin/bash
# usage: sweep.sh quick|thorough "SEEDS" CHECKS... - silent-on-unchanged sweep
tier=$1; seeds=$2; shift 2
for c in "$@"; do for s in $seeds; do
  VERIF_SEED=$s "$(dirname "$0")/../check" $c $tier > /tmp/sweep.$c.$s.log 2>&1
  rc=$?; echo "rc=$rc $(grep -v '^  obs' /tmp/sweep.$c.$s.log | head -1)"
  [ $rc != 0 ] && grep -v '^  obs' /tmp/sweep.$c.$s.log | grep -v KNOWN | sed -n 2,9p | cut -c1-500
done; done
