#!/bin/bash
# Builds the simulator once; every check rebuilds what /repo's tree changed.
cd "$(dirname "$0")" || exit 2
exec bash dst/build.sh
