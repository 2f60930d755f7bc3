#!/bin/bash
# Nothing to build: specifications are interpreted by TLC, the code by Python.
set -e
here="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
java -version 2>/dev/null
mkdir -p "$here/evidence" "$here/replay"
