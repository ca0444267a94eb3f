#!/usr/bin/env python3
# mut.py FILE.muts PROP : each mutation:  ### name expect(file)\n<<<<\nold\n====\nnew\n>>>>
import sys,subprocess,re,os
src=open(sys.argv[1]).read(); prop=sys.argv[2]
only=sys.argv[3:] 
D='/tmp/mutrepo'
subprocess.run(['rm','-rf',D]); subprocess.run(['cp','-a','/repo',D])
for blk in re.split(r'^### ',src,flags=re.M)[1:]:
    head,body=blk.split('\n',1)
    name,file=head.split()[:2]; exp=head.split()[2] if len(head.split())>2 else 'V'
    if only and name not in only: continue
    subprocess.run(['git','-C',D,'checkout','-q','--','.'])
    bad=False
    cur=file
    for part in re.findall(r'(?:@@ (\S+)\n)?<<<<\n(.*?)====\n(.*?)>>>>\n',body,flags=re.S):
        if part[0]: cur=part[0]
        p=os.path.join(D,cur); s=open(p).read()
        part=(part[0],part[1].rstrip('\n'),part[2].rstrip('\n'))
        if s.count(part[1])<1: print(name,'NOMATCH',part[1][:60]); bad=True; break
        s=s.replace(part[1],part[2],1); open(p,'w').write(s)
    if bad: continue
    b=subprocess.run(['go','build','./...'],cwd=D,capture_output=True,text=True)
    if b.returncode: print(name,'NOBUILD',b.stderr[:300]); continue
    r=subprocess.run([os.environ.get('JXLSA',os.environ.get('JXLSA','/tmp/jxlsa')),prop,D],capture_output=True,text=True,env=dict(os.environ,VERIF_DIR='/tmp/v'))
    got='V' if 'VIOLATION' in r.stdout else 'ok'
    print(('PASS' if got==exp else 'FAIL'),name,got,'exp',exp)
    if got=='V':
        print('\n'.join('     '+l for l in r.stdout.split('\n') if l.startswith('  '))[:600])
subprocess.run(['git','-C',D,'checkout','-q','--','.'])
