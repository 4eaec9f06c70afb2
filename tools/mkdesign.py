#!/usr/bin/env python3
"""Writes DESIGN.md from tools/design.md, known-findings.txt and the planted bugs' meta.json."""
import json,os,glob
os.chdir(os.path.join(os.path.dirname(os.path.abspath(__file__)),'..'))
fixed=''
for l in open('known-findings.txt'):
    if l.startswith('fixed:'):
        _,p,c,w=l.split(' ',3); fixed+='* %s `%s` %s\n'%(p.split('=')[1],c,w.strip())
fixed+='\nRecorded, not repaired (each check prints KNOWN-FINDING for it):\n\n'
for l in open('known-findings.txt'):
    if l.startswith('known:'):
        _,p,m,w=l.split(' ',3); fixed+='* %s (`%s`) %s\n'%(p.split('=')[1],m.split('=')[1],w.strip())
fixed+='''
The first two are in huh's accessible mode, which has no context; the third needs job control (tcsetpgrp around every foreground command), which
changes what ctrl+c means for every task: not a small repair.
'''
s=open('tools/design.md').read()
s=s.replace('@@FIXED@@',fixed)
rows='| Planted bug | Property | Needs | Caught by |\n|---|---|---|---|\n'
also=json.load(open('tools/caught.json'))
for f in sorted(glob.glob('seeded/*/meta.json')):
    m=json.load(open(f)); i=f.split('/')[1]
    rows+='| %s | %s | %s | %s |\n'%(i,m['property'],m['needs'],also.get(i,m['property']))
s=s.replace('@@SEEDED@@','Each was written from a property and the code; its patch passes the existing tests and its demonstration fails with it and passes without.\n\n'+rows)
open('DESIGN.md','w').write(s)
