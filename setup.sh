#!/bin/bash
# Builds the MIR driver and the dependencies of every analysed configuration.
cd "$(dirname "${BASH_SOURCE[0]}")" || exit 2
exec python3 tools/extract.py main plain unbounded cycle mongo
