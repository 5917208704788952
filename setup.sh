#!/bin/bash
# Builds the analysers; needs no network.
cd "$(dirname "$0")/checks" && exec python3 -c 'import vt; vt.build_tools()'
