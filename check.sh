#!/bin/bash
# check.sh PROPERTY [quick|thorough]
cd "$(dirname "$0")" || exit 2
export PATH=/opt/veriftools/go1.27.3/bin:$PATH HOME=${HOME:-/root}
bash ./build.sh || { echo "the verifier does not build"; exit 2; }
unset GOFLAGS
export GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local
exec ./bin/govc check -prop "$1" -tier "${2:-${VERIF_TIER:-quick}}"
