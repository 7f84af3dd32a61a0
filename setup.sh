#!/bin/bash
# Builds the symbolic executor from the committed sources.
cd "$(dirname "$0")" || exit 2
. ./env.sh
mkdir -p out evidence
cd gosym && go build -o ../out/gosym . || exit 2
# the term simplifier is compared with the solver on random terms
../out/gosym -selftest 1500 || exit 2
