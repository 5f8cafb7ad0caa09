#!/bin/bash
cd "$(dirname "$0")" && GOFLAGS=-mod=mod GOPROXY=off GONOSUMDB='*' GONOSUMCHECK=1 GOWORK=off CGO_ENABLED=0 go build -o ../bin/babverif .
