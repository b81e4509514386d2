#!/bin/bash
# Exits with 0 if the program behaves as it should.
exec timeout 250 /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"
