#!/bin/bash
. "$(dirname "$0")/build_demo.sh"
cd $W && timeout 200 ./demo
