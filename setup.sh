#!/bin/bash
cd "$(dirname "$0")" || exit 2
export GOFLAGS= GOPROXY=off
mkdir -p bin evidence
(cd gocv && go build -mod=vendor -o ../bin/gocv .) || exit 1
(cd "${REPO:-/repo}" && go build ./... ) || true
