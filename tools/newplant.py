#!/usr/bin/env python3
"""newplant.py ID PROPERTY NEEDS BREAKS < demo source: writes demo.sh, the demo source and meta.json (C++ if LANG=cpp)."""
import json, os, sys
i, p, needs, breaks = sys.argv[1:5]
d = f"/verif/seeded/{i}"; os.makedirs(d, exist_ok=True)
cpp = os.environ.get("DEMO") == "cpp"
src = "demo.cpp" if cpp else "demo.c"
open(f"{d}/{src}", "w").write(sys.stdin.read())
json.dump(dict(property=p, needs=needs, what_it_breaks=breaks), open(f"{d}/meta.json", "w"), indent=1)
flags = os.environ.get("FLAGS", "")
build = (f'g++ -std=gnu++17 -g -w -pthread {flags} -iquote /repo "$here/demo.cpp" "$t"/*.o /repo/*.cpp -o "$t/demo" -lm -latomic'
         if cpp else f'gcc -std=gnu11 -g -w -pthread {flags} -iquote /repo "$here/demo.c" "$t"/*.o -o "$t/demo" -lm -latomic')
open(f"{d}/demo.sh", "w").write(f'''#!/bin/bash
# Exits 0 when the behaviour is right, nonzero when it is not.
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 2
trap 'cd /; rm -rf "$t"' EXIT
cd "$t" || exit 2
gcc -std=gnu11 -g -w -pthread {flags} -c /repo/*.c || exit 3
{build} || exit 3
mkdir work && cd work && timeout 100 ../demo
''')
