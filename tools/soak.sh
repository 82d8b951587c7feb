#!/bin/bash
# soak.sh FROM TO CHECK... : runs checks with many seeds (looking for false alarms)
A=$1; B=$2; shift 2
for s in $(seq $A $B); do for c in "$@"; do VERIF_SEED=$s "$(dirname $0)/../bin/check" $c > /tmp/soak.$c.$s 2>&1 && rm -f /tmp/soak.$c.$s || { echo "seed $s $c"; head -c 600 /tmp/soak.$c.$s; }; done; done
