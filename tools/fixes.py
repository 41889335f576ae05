import subprocess,json
log=subprocess.run(['git','-C','/repo','log','--reverse','--format=%h %s','aa28234..HEAD'],capture_output=True,text=True).stdout.strip().split('\n')
M={'evaluating an expression never':'E01','hex literals':'E01','values of names that':'E02','unfinished bracket':'E01','reverse continue from':'S02',"enable condition always":'S03','middle of a batch':'S01','share an id':'S03','invalid data breakpoint':'S03','added by id':'S03','data breakpoints keep':'S03',
'slices stop':'R01','slice of a signal is':'R01','not in the design':'R02','array index':'R02','module of an assertion':'R02','matching an instance':'R02','unsigned numbers':'D04'}
import os
extra=json.load(open('/verif/tools/fixmap.json')) if os.path.exists('/verif/tools/fixmap.json') else {}
M.update(extra)
out=[]
for l in log:
    h,s=l.split(' ',1)
    p=[v for k,v in M.items() if k in s]
    assert len(p)==1,(l,p)
    out.append({'property':p[0],'status':'fixed','commit':h,'what':'fixed: property=%s %s %s'%(p[0],h,s.replace('fix: ','',1))})
old=[]
try:
    for l in open('/verif/KNOWN_FINDINGS.jsonl'):
        e=json.loads(l)
        if e['status']=='known': old.append(e)
except FileNotFoundError: pass
open('/verif/KNOWN_FINDINGS.jsonl','w').write(''.join(json.dumps(e)+'\n' for e in out+old))
