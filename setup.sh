#!/bin/bash
# Builds the MIR dumper and warms the dependency artefacts.
cd "$(dirname "$0")" && bash tools/facts.sh build/facts
