#!/bin/bash
# Builds the symbolic executor and the runtime bitcode from the committed files.
cd "$(dirname "$0")" && python3 -c "import check; check.setup()"
