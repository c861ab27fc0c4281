#!/bin/bash
# check.sh PROPERTY quick|thorough: builds the tool and the simulation of /repo, then decides the property.
cd "$(dirname "$0")" || exit 2
. ./env.sh
mkdir -p bin || exit 2
(cd tool && go build -o ../bin/vt ./cmd/vt) || exit 2
exec bin/vt "${@}"
