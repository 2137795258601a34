#!/bin/bash
# one.sh PROP SEED N ID: write the history ID of a generated set to replays/ and dump it
cd /verif; B=$(ls .build/jh-A-* | head -1)
$B gen $1 $2 $3 | grep -P "^$4\t" > replays/$1-$4.txt; python3 tools/dump.py replays/$1-$4.txt
