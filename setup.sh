#!/bin/sh
# Nothing has to be prepared: every check builds what it needs from /repo. This only makes sure that it can.
set -e
cd "$(dirname "$0")"
. /opt/vp/env.sh
python3 -c 'import json; json.load(open("MANIFEST.json"))'
go version
mkdir -p evidence
