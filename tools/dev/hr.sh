#!/bin/bash
# run harness only: hr.sh C27
cd /verif && python3 - "$1" <<'P'
import sys,glob,json,os,subprocess
p=sys.argv[1]
rep={}
for d in ['h','oracle',p]:
    for f in glob.glob('/verif/harness/%s/*.go'%d): rep['/repo/zzverif/%s/%s'%(d,os.path.basename(f))]=f
json.dump({'Replace':rep},open('/tmp/ov-%s.json'%p,'w'))
env=dict(os.environ,GOFLAGS='-mod=readonly',GOPROXY='off',GOTOOLCHAIN='local',GO111MODULE='on')
r=subprocess.run(['go','build','-overlay','/tmp/ov-%s.json'%p,'-o','/tmp/h-'+p,'./zzverif/'+p],cwd='/repo',env=env)
if r.returncode: sys.exit(1)
subprocess.run(['/tmp/h-'+p,'/tmp/h-%s.json'%p])
j=json.load(open('/tmp/h-%s.json'%p))
print(j['Evaluations'],j['Distinct'],j['Wall'],j['Checks'])
for f in (j['Failures'] or []): print('FAIL',f['Check'],f['Key'],'|',f['Input'][:300],'|',f['Detail'][:600])
P
