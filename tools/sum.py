import json,collections,sys
R=collections.OrderedDict()
for l in open('/tmp/out.json'):
    d=json.loads(l)
    if 'entry' not in d: continue
    k=d['entry'].split('::')[0] if len(sys.argv)<2 else d['entry']
    r=R.setdefault(k,dict(n=0,t=0,steps=0,viol=0,uns=0,bad=0,V={},U={},mx=0))
    if d.get('bad_range') or d.get('skipped'): r['bad']+=1; print(d) ; continue
    r['n']+=1;r['t']+=d['time'];r['mx']=max(r['mx'],d['time']);r['steps']+=d['steps'];r['viol']+=len(d['violations']);r['uns']+=len(d['unsup'])
    for v in d['violations']:
        r['V'].setdefault((v['kind'],v['tag'][:110],v['site']),[]).append(f"{d['entry'].split('::')[1]}@{d['p']}")
    for u in d['unsup']: r['U'].setdefault(u[:150],[]).append(f"{d['entry'].split('::')[1]}@{d['p']}")
    if d['ended']==0 and not d['violations'] and not d['unsup']: r.setdefault('noend',[]).append(f"{d['entry'].split('::')[1]}@{d['p']}")
for k,r in R.items():
    print(f"{k}: tasks {r['n']} cpu {r['t']:.1f}s max {r['mx']:.2f} steps {r['steps']/1e6:.1f}M viol {r['viol']} unsup {r['uns']}", 'noend' if r.get('noend') else '', (r.get('noend') or [])[:6])
    for v,w in list(r['V'].items())[:8]: print('   V',v,len(w),w[:7])
    for v,w in list(r['U'].items())[:6]: print('   U',v,len(w),w[:7])
