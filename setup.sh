#!/bin/bash
# Nothing has to be built: the checks import /repo's working tree directly.
cd "$(dirname "$0")" && exec ./run.sh selftest
