#!/bin/bash
# usage: check.sh PROPERTY   (VERIF_TIER, VERIF_SEED from the environment)
cd "$(dirname "$0")" || exit 2
[ "$2" != "" ] && export VERIF_TIER="$2"
bash govc/build.sh >&2 || { echo "cannot build the verifier"; exit 2; }
exec govc/govc check "$1"
