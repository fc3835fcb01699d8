#!/bin/bash
# builds the IR dumper and the IR of the current tree once (the checks rebuild it when the tree changes)
set -e
cd "$(dirname "$0")"
python3 -c "import sys; sys.path.insert(0, 'engine'); import common; common.load_module()"
