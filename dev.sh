#!/bin/bash
# development helper: dev.sh PART [verus options]   (all modules extracted)
mkdir -p /verif/.build
P=$1; shift
/verif/extract/target/release/extract --repo /repo --contracts /verif/contracts --part $P --out /verif/.build/dev_$P.rs --map /verif/.build/dev_$P.map || exit 3
cd /verif/.build && timeout ${T:-300} verus --multiple-errors 5 --num-threads 8 --triggers-mode silent "$@" dev_$P.rs 2>&1
