#!/bin/bash
D=$(cd "$(dirname "$0")" && pwd)
exec timeout 250 python3 "$D/demo.py"
