#!/bin/bash
# offline: unpack hypothesis next to the harness and make sure everything imports
here="$(cd "$(dirname "$0")" && pwd)"
exec bash "$here/run.sh" --selftest
