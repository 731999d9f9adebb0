#!/usr/bin/env python3
"""tools/addlog.py LOG [missed...]: add confirmed lines of a seedcheck log to
planted.txt, and the named ones to first_missed.txt"""
import sys
new = {}
for l in open(sys.argv[1]):
    if ': demo unchanged=0 patched=1 | tests lost: 0' in l:
        new[l.split(':')[0]] = l
L = open('tools/planted.txt').read().splitlines(True)
L = [x for x in L if x.split(':')[0] not in new]
L[-1:-1] = [new[k] for k in sorted(new)]
open('tools/planted.txt', 'w').writelines(L)
s = open('tools/first_missed.txt').read().split()
open('tools/first_missed.txt', 'w').write(
    ' '.join(sorted(set(s) | set(sys.argv[2:]))) + '\n')
print(sorted(new))
