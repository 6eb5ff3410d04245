#!/usr/bin/env python3
"""try.py: reads a small script (op arg arg..., args python literals separated by |) and prints the event log"""
import os, sys, ast
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0]=[V+"/lib"]
import vp, build
b=build.build(os.environ.get("SAN","asan"))
L=[vp.op("new",0)]
for ln in sys.stdin:
    ln=ln.rstrip("\n")
    if not ln or ln[0]=="#": continue
    p=ln.split("|") if "|" in ln and not ln.startswith("=") else ln.split(" ",1)
    nm=p[0].strip(); args=[]
    if len(p)>1:
        args=list(ast.literal_eval("("+ln.split(" ",1)[1]+",)")) if " " in ln else []
    L.append(vp.op(nm.split()[0],*args))
c=vp.Case(L)
r=vp.run_cases(b,[c])[0]
for e in r[0] or []: print(e)
if r[1]: print("CRASH",r[1].sig,r[1].text[:3000])
