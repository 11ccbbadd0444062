#!/usr/bin/env python3
"""ed.py FILE <<< python literal list of (old,new): newline-preserving exact replacement"""
import sys
f=sys.argv[1]; s=open(f,newline='').read(); crlf='\r\n' in s
for old,new in eval(sys.stdin.read()):
    if crlf: old=old.replace('\n','\r\n'); new=new.replace('\n','\r\n')
    assert s.count(old)==1,(s.count(old),old)
    s=s.replace(old,new)
open(f,'w',newline='').write(s)
