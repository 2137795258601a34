#!/usr/bin/env python3
"""Print the marker structure of the streams in a history file."""
import sys
for l in open(sys.argv[1]):
    f=l.rstrip("\n").split("\t"); b=bytes.fromhex(f[5]); print(f[:5],len(b))
    p=0
    while p<len(b)-1:
        if b[p]==0xFF and b[p+1] not in (0,0xFF) and not(0xD0<=b[p+1]<=0xD7):
            m=b[p+1]
            if m in(0xD8,0xD9): print("%04d %02X"%(p,m)); p+=2; continue
            L=b[p+2]*256+b[p+3] if p+3<len(b) else 0
            print("%04d %02X len %d: %s"%(p,m,L,b[p+4:p+2+L].hex(' ')[:150])); p+=2+max(L,2)
            if m==0xDA:
                q=p
                while q<len(b)-1 and not(b[q]==0xFF and b[q+1] not in(0,0xFF) and not 0xD0<=b[q+1]<=0xD7): q+=1
                print("     ecs %d: %s"%(q-p,b[p:q].hex(' ')[:120])); p=q
        else: p+=1
