#!/bin/bash
# Builds the simulator once, to see that everything needed is there. Checks rebuild from /repo themselves.
cd "$(dirname "$0")" && python3 tools/simbuild.py
