#!/bin/bash
# One-off: builds the harness and the binaries under test from /repo's working tree.
exec bash "$(cd "$(dirname "$0")" && pwd)/tools/build.sh" harness bins clock
