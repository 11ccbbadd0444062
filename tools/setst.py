#!/usr/bin/env python3
"""setst.py ID [title|statement|...] < text : rewrite a property's statement (dev helper)"""
import sys,re
f='/verif/tools/props_table.py'; s=open(f).read(); i=s.index('p("%s"'%sys.argv[1]); j=s.index('\n',i)+1; k=s.index('\n',j)
new=' '.join(sys.stdin.read().split()).replace('"','\\"')
s=s[:j]+'  "'+new+'",'+s[k:]; open(f,'w').write(s)
