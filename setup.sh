#!/bin/bash
# builds the IR exporter (offline, ~10 s)
cd "$(dirname "$0")" && python3 -c "
import sys; sys.path.insert(0,'engine')
import common; common.ensure_tool()"
