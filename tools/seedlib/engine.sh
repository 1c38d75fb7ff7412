#!/bin/bash
. "$(dirname "$0")/common.sh"
build demo "$here/demo.cpp"
timeout 250 ./demo > demo.log 2> demo.err
rc=$?
grep -v '^$' demo.err | head -40
[ $rc = 0 ]
