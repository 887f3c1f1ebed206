#!/bin/bash
# follow.sh MAKELOG OUT : check OK bugs as they appear
cd /tmp/seed; touch $2
while :; do
 for id in $(grep -- '-> OK' $1 | cut -d' ' -f1); do grep -q "^$id " $2 || nice python3 tool.py check $id >> $2 2>&1; done
 pgrep -f "tool.py make" >/dev/null || { n=$(grep -c -- '-> OK' $1); m=$(grep -c "rc=" $2); [ $m -ge $n ] && break; }
 sleep 5
done
