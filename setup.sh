#!/bin/bash
# Checks that the explorer builds offline from the committed files.
cd "$(dirname "$0")/mc" || exit 1
if [ -f /opt/vp/env.sh ]; then . /opt/vp/env.sh; fi
export GOFLAGS=-mod=readonly
tmp=$(mktemp -d /tmp/mcsetup.XXXXXX); trap 'rm -rf "$tmp"' EXIT
go build -o "$tmp/mc" . 
