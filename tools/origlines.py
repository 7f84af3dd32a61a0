#!/usr/bin/env python3
"""Checks that each seeded patch changes lines of the original repository."""
import subprocess,os,re,glob
base=subprocess.run("git -C /repo rev-list --max-parents=0 HEAD | tail -1",shell=True,capture_output=True,text=True).stdout.strip()
for d in sorted(glob.glob('/verif/seeded/*/patch.diff')):
    removed=[];ctx=[]
    f=None;n=0;touch=[]
    for l in open(d):
        if l.startswith('--- a/'): f=l[6:].strip()
        elif l.startswith('@@'): n=int(re.match(r'@@ -(\d+)',l).group(1))
        elif l.startswith('-') and not l.startswith('---'): touch.append((f,n)); n+=1
        elif l.startswith(' '): n+=1
    bad=[]
    for f,n in touch:
        b=subprocess.run(['git','-C','/repo','blame','-l','-s','-L',f'{n},{n}','HEAD','--',f],capture_output=True,text=True).stdout
        sub=subprocess.run(['git','-C','/repo','log','-1','--format=%s',b.split()[0].lstrip('^')],capture_output=True,text=True).stdout
        if sub.startswith('fix:'): bad.append((f,n))
    if not touch: print(os.path.basename(os.path.dirname(d)),'only adds lines')
    elif bad: print(os.path.basename(os.path.dirname(d)),'touches fix lines',bad,'of',len(touch))
