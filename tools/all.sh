#!/bin/bash
# all kernels of one dimension/accuracy: tools/all.sh NDIM ACC
cd "$(dirname "$0")/.."
for e in scalar acoustic elastic scalar_born; do for p in forward backward; do python3-vt -m vc.kern $e $1 $2 $p 2>&1| head -${3:-4}| cut -c1-500; done; done
python3-vt -m vc.kern scalar_born $1 $2 backward_sc 2>&1| head -4| cut -c1-500
