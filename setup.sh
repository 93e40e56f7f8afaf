#!/bin/bash
# Builds the analysis driver and the dependencies of every configuration.
exec python3 "$(dirname "$0")/tools/check.py" --setup
