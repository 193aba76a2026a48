#!/bin/bash
# Builds the checker from the committed sources, offline.
cd "$(dirname "$0")" || exit 2
. ./env.sh
mkdir -p bin evidence
cd checker && go build -o ../bin/ohcheck.new . && mv ../bin/ohcheck.new ../bin/ohcheck
