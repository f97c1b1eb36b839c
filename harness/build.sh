#!/bin/bash
# build.sh SUITE OUT [go flags]: builds the harness SUITE against /repo's working tree.
# With -os as first flag the standard package os carries the file-operation hook. With -sched (which includes -os)
# schedules are explored as well: locks, atomic and file operations are places where another goroutine may go on.
. /opt/vp/env.sh
here=$(cd "$(dirname "$0")" && pwd)
suite=$1; out=$2; shift 2
tmp=$(mktemp -d /tmp/vov.XXXXXX)
trap 'rm -rf "$tmp"' EXIT
echo '{}' > "$tmp/os.json"
tags=
sched=
if [ "$1" = -os ] || [ "$1" = -sched ]; then
  tags=-tags=oshook
  if [ "$1" = -sched ]; then sched=1; tags=-tags=oshook,sched; fi
  shift
  mkdir "$tmp/os"
  python3 "$here/osoverlay.py" "$tmp/os" > "$tmp/os.json" || exit 1
fi
python3 - "$here" "$tmp" "$suite" "$sched" <<'PY'
import sys,os,json
here,tmp,suite,sched=sys.argv[1:]
rep=json.load(open(tmp+'/os.json'))
for d in os.listdir(here):
    p=os.path.join(here,d)
    if not os.path.isdir(p): continue
    for f in os.listdir(p):
        if f.endswith('.go'):
            rep['/repo/server/zzverif/%s/%s'%(d,f)]=os.path.join(p,f)
# the files of the server use locks that virtual time does not stop at; so does everything when schedules are explored
import re
dirs=[]
if sched:
    for top in ('/repo','/repo/memdb','/repo/wal','/repo/filter','/repo/uid','/repo/hash','/repo/message','/repo/crypto','/repo/server/internal'):
        for root,_,files in os.walk(top):
            if top=='/repo' and root!=top: break
            if 'zzverif' in root: continue
            dirs.append(root)
elif suite=='srv':
    dirs=['/repo/server/internal']
zz='github.com/unit-io/unitdb/server/zzverif/'
for src in dirs:
    for f in sorted(os.listdir(src)):
        if not f.endswith('.go') or f.endswith('_test.go'): continue
        k=os.path.join(src,f)
        if k in rep: continue
        t=open(k).read()
        n=re.sub(r'(?m)^(import\s+|\t)(?:sync\s+)?"sync"\s*$',r'\1sync "'+zz+'vsync"',t)
        if sched:
            n=re.sub(r'(?m)^(import\s+|\t)(?:atomic\s+)?"sync/atomic"\s*$',r'\1atomic "'+zz+'vatomic"',n)
        if n!=t:
            q=os.path.join(tmp,'vs_'+k.replace('/','_'))
            open(q,'w').write(n)
            rep[k]=q
# opening a database makes 100000 locks and expiry windows; most builds make fewer, since opening takes most of the time
if os.environ.get('VERIF_SCALE','1')!='0':
    import re
    for src in ('/repo','/repo/memdb'):
        for f in sorted(os.listdir(src)):
            if not f.endswith('.go') or f.endswith('_test.go'): continue
            k=os.path.join(src,f)
            t=open(rep.get(k,k)).read()
            n=re.sub(r'(?m)^(\s*(?:const\s+)?(?:nBlocks|nLocks)\s*=\s*)100000\b',r'\g<1>4001',t)
            if n!=t:
                q=os.path.join(tmp,'sc_'+src.replace('/','_')+f)
                open(q,'w').write(n)
                rep[k]=q
json.dump({'Replace':rep},open(tmp+'/ov.json','w'))
PY
cd /repo && go test -vet=off -c $tags -overlay "$tmp/ov.json" -o "$out" "$@" "./server/zzverif/$suite"
