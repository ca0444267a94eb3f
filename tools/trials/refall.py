# refall.py FILE.muts... : every 'ok' mutation must be quiet in ALL checks
import sys,subprocess,re,os
D=os.environ.get('RAD','/tmp/mutrepo2')
os.makedirs(D+'.v',exist_ok=True); subprocess.run(['cp','/verif/known_findings.txt',D+'.v/']); subprocess.run(['rm','-rf',D]); subprocess.run(['cp','-a','/repo',D])
for fn in sys.argv[1:]:
  src=open(fn).read()
  for blk in re.split(r'^### ',src,flags=re.M)[1:]:
    head,body=blk.split('\n',1)
    hs=head.split(); name,file=hs[:2]; exp=hs[2] if len(hs)>2 else 'V'
    if exp!='ok': continue
    subprocess.run(['git','-C',D,'checkout','-q','--','.'])
    cur=file; bad=False
    for part in re.findall(r'(?:@@ (\S+)\n)?<<<<\n(.*?)====\n(.*?)>>>>\n',body,flags=re.S):
        if part[0]: cur=part[0]
        p=os.path.join(D,cur); s=open(p).read()
        o,n=part[1].rstrip('\n'),part[2].rstrip('\n')
        if o not in s: print(name,'NOMATCH'); bad=True; break
        open(p,'w').write(s.replace(o,n,1))
    if bad: continue
    b=subprocess.run(['go','build','./...'],cwd=D,capture_output=True,text=True)
    if b.returncode: print(name,'NOBUILD',b.stderr[:300]); continue
    r=subprocess.run([os.environ.get('JXLSA','/tmp/jxlsa'),'all',D],capture_output=True,text=True,env=dict(os.environ,VERIF_DIR=D+'.v'))
    v=[l for l in r.stdout.split('\n') if l.startswith('VIOLATION') or l.startswith('  ')]
    print('quiet' if not v else 'ALARM',name); 
    for l in v: print('    ',l[:250])
