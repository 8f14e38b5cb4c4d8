#!/usr/bin/env python3
"""mk.py NAME DIR: copy of the sources with one corpus edit"""
import sys, os, shutil, importlib
H=os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0,H)
for fn in sorted(os.listdir(H)):
    if fn.startswith('corpus') and fn.endswith('.py'):
        for name, want, edits in importlib.import_module(fn[:-3]).CORPUS:
            if name == sys.argv[1]:
                shutil.rmtree(sys.argv[2], ignore_errors=True)
                shutil.copytree('/repo/modbus_tk', sys.argv[2]+'/modbus_tk')
                for f, a, b in edits:
                    p=sys.argv[2]+'/modbus_tk/'+f
                    s=open(p).read(); assert a in s, a
                    open(p,'w').write(s.replace(a,b))
