#!/bin/bash
# build the engine and vet the harnesses
. /verif/env.sh
cd /verif/engine && go build -o /verif/bin/gosym . && cd ../harness && go vet ./...
