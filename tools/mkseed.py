"""mkseed.py ID PROP FILE <<< json {old,new,needs,breaks,demo}"""
import sys, json, os, subprocess
def make(sid, prop, edits, needs, breaks, demo):
  d=f'/verif/seeded/{sid}'; os.makedirs(d, exist_ok=True)
  w='/tmp/seedwork/r'; subprocess.run(['rm','-rf',w]); subprocess.run(['git','clone','-q','/repo',w],check=True)
  for f,o,n in edits:
    s=open(f'{w}/{f}').read(); assert s.count(o)==1,(f,o,s.count(o)); open(f'{w}/{f}','w').write(s.replace(o,n))
  p=subprocess.run(['git','-C',w,'diff'],capture_output=True,text=True).stdout
  open(f'{d}/patch.diff','w').write(p)
  open(f'{d}/meta.json','w').write(json.dumps({'property':prop,'needs':needs,'what_it_breaks':breaks},indent=1)+'\n')
  open(f'{d}/demo.py','w').write(demo)
  open(f'{d}/demo.sh','w').write('''#!/bin/bash
# Run with cwd = the repository.
export PYTHONPATH=$PWD PYTHONDONTWRITEBYTECODE=1 JAX_PLATFORMS=cpu CUDA_VISIBLE_DEVICES= TF_CPP_MIN_LOG_LEVEL=3 NO_GCE_CHECK=true
exec /opt/venv/bin/python "$(dirname "$0")/demo.py"
''')
  os.chmod(f'{d}/demo.sh',0o755)
