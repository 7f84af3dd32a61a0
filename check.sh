#!/bin/bash
# check.sh Cnn quick|thorough: decides one property on /repo's working tree.
cd "$(dirname "$0")" || exit 2
here=$PWD
. ./env.sh
mkdir -p out evidence
(cd gosym && go build -o ../out/gosym .) || exit 2
repo="${VERIF_REPO:-/repo}"
exec ./out/gosym -prop "$1" -tier "${2:-${VERIF_TIER:-quick}}" -repo "$repo" -verif "$here"
