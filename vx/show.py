import json,sys,os
d=sys.argv[1]; name=sys.argv[2]
ix=json.load(open(d+'/index.json'))
for n,k,f,sp in ix['roots']:
    if n==name:
        j=json.load(open(d+'/'+f)); break
def ty(i): return j['types'][i]['n']
def op(o):
    if o[0] in('copy','move'): return o[0][0]+' '+pl(o[1])
    if o[0]=='fn': return 'fn '+o[2]['name'] if isinstance(o[2],dict) else str(o)
    return str(o[0])+':'+str(o[2:])+':'+ty(o[1])
def pl(p):
    s='_%d'%p[0]
    for e in p[1]: s+={'d':'.*'}.get(e[0]) or '.'+':'.join(map(str,e))
    return s
def rv(r):
    return str(r[0])+' '+' '.join(op(x) if isinstance(x,list) and x and x[0] in('copy','move','int','fn','zst','body','assoc','tyc','val','scalar') else (pl(x) if isinstance(x,list) and len(x)==3 and isinstance(x[0],int) else str(x)) for x in r[1:]) if r[0]!='agg' else 'agg %s %s'%(r[1],[op(x) for x in r[2]])
for it in j['insts']:
    print('---',it['key'],it['name'],it['kind'],it['krate'],it['trait_item'],'' if 'body' in it else '(no body)')
    if 'body' in it and len(sys.argv)<4:
        b=it['body']
        for i,t in enumerate(b['locals']): print('   let _%d: %s'%(i,ty(t)))
        for i,bl in enumerate(b['blocks']):
            if bl['c']: continue
            print('  bb%d:'%i)
            for s in bl['s']:
                if s[0] in('live','dead'): continue
                print('     ',pl(s[1]),'=',rv(s[2])) if s[0]=='=' else print('     ',s)
            t=bl['t']
            if t[0]=='call': print('     ',pl(t[3]),'= call',t[1]['name'] if t[1] else t[6],'#',t[1] and t[1]['inst'],t[1] and t[1]['dflt'],[op(a) for a in t[2]],'->',t[4])
            else: print('     ',t)
