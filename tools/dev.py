import sys,time; sys.path.insert(0,'/verif/lib'); import sx,json,collections
a=sys.argv[1:]; name=a[0]; flags=[x for x in a[1:] if x.startswith('-')]; rest=[x for x in a[1:] if not x.startswith('-')]
bud=float(rest[0]) if rest else 60; lib=rest[1] if len(rest)>1 else 'full'
if not any('SX_TIER' in f for f in flags): flags.append('-DSX_TIER=0')
t=time.time(); B=sx.Build(); ex=B.build([(name,flags,lib)]); print('build',round(time.time()-t,1))
nv=int(rest[2]) if len(rest)>2 else 400
r=sx.run_exe(ex[0],'/tmp/t/o.json',bud,maxviol=nv); r.pop('pcs')
V=r.pop('violations'); S=r.pop('samples')
print({k:v for k,v in r.items() if k not in ('reach',)})
print('violations',len(V))
seen=collections.Counter()
for v in V:
    k=(v['kind'],v['msg'],v['note'].split('input:')[0])
    seen[k]+=1
    if seen[k]<=1 and len(seen)<=14: print('-----',v['kind'],v['msg'],[x[2] for x in v['vals']]); print(v['note'][:900])
for k,n in seen.items(): print(n,k[0],k[1],k[2][:150].replace('\n',' '))
