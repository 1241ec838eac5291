#!/bin/bash
# show.sh ID: print the replay files of a property
for f in /verif/replays/$1_*; do python3 -c "
import json,sys
r=json.load(open('$f')); print('#####',r['family'],r['error'][:1500]); print(r['notes']); print(r['traceback'][-1500:])"; done
