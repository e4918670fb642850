#!/bin/bash
# usage: check.sh PROPERTY [quick|thorough]
cd "$(dirname "$0")" || exit 2
export GOFLAGS= GOPROXY=off
(cd gocv && go build -mod=vendor -o ../bin/gocv .) || exit 2
exec bin/gocv check -prop "$1" -tier "${2:-$VERIF_TIER}" -verif "$PWD" -repo "${REPO:-/repo}"
