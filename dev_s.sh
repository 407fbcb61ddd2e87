#!/bin/bash
# development helper for the server parts: dev_s.sh PART [verus options]
P=$1; shift
/verif/extract/target/release/extract --repo ${REPO:-/repo} --contracts /verif/contracts --part $P --out /verif/.build/dev_$P.rs --map /verif/.build/dev_$P.map || exit 3
cd /verif/.build && timeout ${T:-300} verus --crate-type=lib --multiple-errors 5 --num-threads 8 --triggers-mode silent "$@" dev_$P.rs 2>&1
