#!/bin/bash
# Runs in the root of the repository; the server and the program use the loopback network and a scratch directory only.
exec python3 "$(dirname "$0")/demo.py"
