#!/bin/bash
exec "$(dirname "$0")/../xsched/build.sh" "$1" ./c27
