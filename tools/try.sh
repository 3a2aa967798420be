#!/bin/bash
# try.sh cNN [tier] [time]: build and explore one harness, short report (development aid)
cd /verif && ./build_ir.sh $1 /verif/work/$1.ll && ./engine/target/release/symex --ll work/$1.ll --entry h_$1 --threads 8 --tier ${2:-0} --time ${3:-800} --max-steps 20000000 --out /tmp/$1.json --max-viol ${4:-40}; python3 /tmp/show.py /tmp/$1.json | cut -c1-400 | head -${5:-60}
