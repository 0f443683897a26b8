"""pretty-print a dumped body: python3 pp.py DUMP NAME-SUBSTRING"""
import json,sys
def ty(t):
    k=t[0]
    if k=='adt': return t[1].split('::')[-1]+('<'+','.join(map(ty,t[2:]))+'>' if len(t)>2 else '')
    if k=='ref': return '&'+('mut ' if t[1] else '')+ty(t[2])
    if k=='tuple': return '('+','.join(map(ty,t[1:]))+')'
    return ':'.join(x if isinstance(x,str) else ty(x) if isinstance(x,list) else str(x) for x in t)
def place(p):
    s='_%d'%p[0]
    for e in p[1]:
        if e=='*': s='(*%s)'%s
        elif e[0]=='f': s+='.'+e[2]
        elif e[0]=='d': s='(%s as %s)'%(s,e[2])
        else: s+=str(e)
    return s
def const(c):
    for k in('str','int','static','named'):
        if k in c: return repr(c[k])+(':'+c['named'] if 'named' in c and k!='named' else '')
    if 'fn' in c: return 'fn '+c['fn']['path']
    if 'bytes' in c: return 'b'+repr(bytes(c['bytes']))
    return 'const<%s>'%ty(c['ty'])
def op(o):
    if o[0] in('copy','move'): return place(o[1])
    if o[0]=='const': return const(o[1])
    return str(o)
def rv(r):
    k=r[0]
    if k=='use': return op(r[1])
    if k=='ref': return '&%s %s'%(r[1],place(r[2]))
    if k=='bin': return '%s(%s,%s)'%(r[1],op(r[2]),op(r[3]))
    if k=='un': return '%s(%s)'%(r[1],op(r[2]))
    if k=='cast': return '%s as %s [%s]'%(op(r[2]),ty(r[3]),r[1])
    if k=='discr': return 'discr(%s)'%place(r[1])
    if k=='agg': return '%s(%s)'%(' '.join(map(str,r[1])),', '.join(map(op,r[2])))
    return str(r)
def fn(b):
    print('==',b['id'],'|',b['path'],b['kind'],b['span'],'nargs',b['nargs'],b.get('impl_trait'))
    print('  locals:',', '.join('_%d%s:%s'%(i,'('+l[1]+')' if l[1] else '',ty(l[0])) for i,l in enumerate(b['locals']) if l[1] or i<=b['nargs']))
    print('  up:',[(n,place(p)) for n,p in b['upvars']])
    for i,bl in enumerate(b['blocks']):
        if bl['c']: continue
        print('  bb%d: (%s)%s'%(i,bl['sp'][1],' '.join(bl['m'])))
        for s in bl['s']:
            if s[0]=='=': print('     ',place(s[1]),'=',rv(s[2]))
            elif s[0]=='dead': pass
            else: print('     ',s)
        t=bl['t']
        if t[0]=='call':
            f=t[1]
            print('     ',place(t[3]),'= CALL',f.get('path',f),'{%s}'%','.join(map(ty,f.get('args',[]))),'(%s)'%', '.join(map(op,t[2])),'->',t[4],'  [res %s %s]'%(f.get('res'),f.get('res_kind')))
        elif t[0]=='switch': print('      switch',op(t[1]),t[2],t[3])
        elif t[0]=='drop': print('      drop',place(t[1]),'->',t[2])
        else: print('     ',t)
if __name__=='__main__':
    d=json.load(open(sys.argv[1]))
    for b in d['bodies']:
        if len(sys.argv)<3: print(b['id'],'|',b['path'],b['kind'],b['mac'][:2])
        elif sys.argv[2] in b['path'] or sys.argv[2] in b['id']: fn(b)
