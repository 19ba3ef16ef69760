#!/bin/bash
# check.sh PROPERTY [quick|thorough]: build the engine, run the property's harnesses symbolically.
cd "$(dirname "$0")" || exit 2
V=$PWD
GR=/opt/veriftools/go1.26.10
mkdir -p bin evidence
build() {
	(cd engine && PATH=$GR/bin:$PATH GOROOT= GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=readonly GOWORK=off GOSUMDB=off go build -o "../bin/gosym.$$" .) || exit 2
	mv -f "bin/gosym.$$" bin/gosym
}
[ "$1" = build ] && { build; exit 0; }
build
GOMEMLIMIT=10GiB GOGC=200 exec bin/gosym check -root "$V" -prop "$1" -tier "${2:-${VERIF_TIER:-quick}}"
