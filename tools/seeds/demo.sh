#!/bin/bash
# Exit 0 when the property holds, nonzero when the change breaks it.  Run in /repo after the build.
exec python3 -B "$(dirname "$0")/demo.py"
