#!/bin/bash
# list the refusals (exceptions) that new scenarios of the given checks can end in, and add them to rules/mayraise.txt after review
cd "$(dirname "$0")/.."
SA_CRASHLOG=1 bash dev/all.sh "$@" 2>&1 | grep '^MAYRAISE' | sed 's/MAYRAISE //' > /tmp/mr.txt
awk -F' \\| ' '{print $2,$3}' /tmp/mr.txt | sort | uniq -c
[ -n "$ADD" ] && awk -F' \\| ' '{print $1" | "$2}' /tmp/mr.txt | cat - rules/mayraise.txt | sort -u > /tmp/mr2.txt && cp /tmp/mr2.txt rules/mayraise.txt
