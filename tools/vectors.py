#!/usr/bin/env python3
"""the reference in native/ against Python's hashlib; reads the output of `native vectors`"""
import hashlib, sys
n = bad = 0
for l in sys.stdin:
    f = l.split()
    msg, key = bytes.fromhex(f[1].rstrip('-')), bytes.fromhex(f[2].rstrip('-'))
    c = hashlib.blake2b if f[0] == 'b' else hashlib.blake2s
    h = c(msg, key=key, digest_size=int(f[3]), salt=bytes.fromhex(f[4]), person=bytes.fromhex(f[5]), fanout=int(f[6]), depth=int(f[7]),
          leaf_size=int(f[8]), node_offset=int(f[9]), node_depth=int(f[10]), inner_size=int(f[11]), last_node=f[12] == '1').hexdigest()
    n += 1
    bad += h != f[13]
print(n, 'vectors', bad, 'bad')
sys.exit(1 if bad or not n else 0)
