#!/bin/bash
# setup_cmd: builds the simulator from the committed files and /repo's working tree
exec python3 "$(dirname "$0")/tools/build.py"
