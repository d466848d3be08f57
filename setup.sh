#!/bin/bash
# nothing has to be installed: the checks build what they need (exporter plugin, objects) on demand under build/
cd "$(dirname "$0")" && mkdir -p build evidence && python3-vt -c "import sys; sys.path.insert(0,'.'); sys.dont_write_bytecode=True; import run; print(run.plugin())"
