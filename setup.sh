#!/bin/sh
# Nothing to compile: the specifications are parsed once so that a broken
# toolchain shows up here and not in a check.
cd "$(dirname "$0")/spec" || exit 1
CP=/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar
T=$(mktemp -d) && cp ./*.tla "$T" && cd "$T" || exit 1
java -Djava.io.tmpdir="$T" -cp $CP tla2sany.SANY ./*.tla > "$T/log" 2>&1 || { tail -20 "$T/log"; exit 1; }
cd / && rm -rf "$T"
/opt/venv/bin/python -c 'import torch, mmengine' || exit 1
