#!/usr/bin/env python3
"""Pretty-printer for extracted MIR facts: pp.py FACTS_DIR REGEX"""
import json,sys,re,glob
def pl(p):
    s='_%d'%p['l']
    for e in p['p']:
        if e[0]=='deref': s='(*%s)'%s
        elif e[0]=='field': s+='.'+e[2]
        elif e[0]=='downcast': s+=' as '+e[2]
        else: s+=str(e)
    return s
def op(o):
    if 'cp' in o: return pl(o['cp'])
    if 'mv' in o: return 'mv '+pl(o['mv'])
    if 'k' in o: return 'K(%s)'%o['k'].get('str',o['k']['c'])
    return str(o)
def rv(r):
    if r[0]=='use': return op(r[1])
    if r[0]=='ref': return '&%s %s'%(r[1],pl(r[2]))
    if r[0]=='bin': return '%s(%s,%s)'%(r[1],op(r[2]),op(r[3]))
    if r[0]=='un': return '%s(%s)'%(r[1],op(r[2]))
    if r[0]=='discr': return 'discr(%s)'%pl(r[1])
    if r[0]=='cast': return 'cast[%s](%s as %s)'%(r[1],op(r[2]),r[3]['s'])
    if r[0]=='agg': return 'agg %s (%s)'%(r[1][:4],', '.join(map(op,r[2])))
    return str(r)
def body(b):
    print('==',b['key'],'|',b.get('self',{}).get('s'),'|',b.get('trait'), 'argc',b['argc'])
    for i,l in enumerate(b['locals']): print('   _%d: %s %s'%(i,l['ty']['s'],l.get('n','')))
    for u in b['upv']: print('   upv',u[0],pl(u[1]))
    for i,k in enumerate(b['blocks']):
        if k is None: continue
        print(' bb%d:'%i)
        for s in k['s']: print('    %s = %s   // %s'%(pl(s[0]),rv(s[1]),s[2][1]))
        t=k['t']
        if t['t']=='call':
            f=t['f']
            print('    %s = CALL %s [%s %s](%s) -> %s  //%s'%(pl(t['d']),f.get('full',f),f.get('reskind'),f.get('res'),', '.join(map(op,t['a'])),t['to'],t['sp'][1]))
        elif t['t']=='switch': print('    switch %s %s else %s'%(op(t['d']),t['ts'],t['else']))
        elif t['t']=='drop': print('    drop %s: %s -> %s'%(pl(t['p']),t['ty']['s'],t['to']))
        else: print('   ',{k:v for k,v in t.items() if k!='sp'})
if __name__=='__main__':
    for f in glob.glob(sys.argv[1]+'/*.json'):
        for b in json.load(open(f))['bodies']:
            if re.search(sys.argv[2],b['key']): body(b)
