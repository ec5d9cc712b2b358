#!/bin/bash
# Runs the existing Go tests of a repository copy offline: tools/gotest.sh DIR [go test arguments]
# glog and gonum are not in the module cache; the simulator's stand-ins replace them.
set -e
here=$(cd "$(dirname "$0")/.." && pwd)
src=${1:-/repo}; shift || true
work=$(mktemp -d /tmp/gotest-XXXXXX)
trap 'rm -rf "$work"' EXIT
cp -r "$src/go" "$work/go"
mkdir -p "$work/glog" "$work/gonum/stat/distuv"
cat > "$work/glog/glog.go" <<'G'
package glog

import "log"

func Fatal(a ...any)              { log.Fatal(a...) }
func Fatalf(f string, a ...any)   { log.Fatalf(f, a...) }
func Exit(a ...any)               { log.Fatal(a...) }
func Exitf(f string, a ...any)    { log.Fatalf(f, a...) }
func Error(a ...any)              { log.Print(a...) }
func Errorf(f string, a ...any)   { log.Printf(f, a...) }
func Warning(a ...any)            { log.Print(a...) }
func Warningf(f string, a ...any) { log.Printf(f, a...) }
func Info(a ...any)               { log.Print(a...) }
func Infof(f string, a ...any)    { log.Printf(f, a...) }
G
printf 'module github.com/golang/glog\n\ngo 1.20\n' > "$work/glog/go.mod"
cp "$here"/go/zsim/distuv/*.go "$work/gonum/stat/distuv/"; printf 'module gonum.org/v1/gonum\n\ngo 1.20\n' > "$work/gonum/go.mod"
cat > "$work/go/go.mod" <<M
module github.com/google/differential-privacy/go/v3

go 1.22

require (
	github.com/golang/glog v1.2.0
	github.com/google/go-cmp v0.7.0
	gonum.org/v1/gonum v0.14.0
)

replace github.com/golang/glog => ../glog
replace gonum.org/v1/gonum => ../gonum
M
rm -f "$work/go/go.sum"
cd "$work/go"
GOFLAGS=-mod=mod GONOSUMDB=* GONOSUMCHECK=1 GOFLAGS=-mod=mod GONOSUMDB='*' GOSUMDB=off GOPROXY=off go test "${@:-./...}"
