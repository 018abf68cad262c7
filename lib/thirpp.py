"""debug pretty printer for thirdump output"""
import json,sys
D=json.load(open(sys.argv[1]))
T=D['types'];X=D['expns']
def tn(i):
    t=T[i];k=t['k']
    if k=='adt': return t['d'].split('::')[-1]+('<'+','.join(map(tn,t['a']))+'>' if t['a'] else '')
    if k=='ref': return '&'+('mut ' if t['mut'] else '')+tn(t['a'][0])
    if k=='tuple': return '('+','.join(map(tn,t['a']))+')'
    if k in('slice','array'): return '['+tn(t['a'][0])+']'
    if k=='fndef': return t['d']+'::<'+','.join(map(tn,t['a']))+'>'
    return t.get('n',t.get('d',k))
def xn(i): return X[i]['n']+'#%d'%i if i>=0 else ''
def pat(p):
    k=p['k']
    if k=='bind': return p['n']+'_%d'%p['v']+(('@'+pat(p['sub'])) if p['sub'] else '')
    if k=='variant': return p['variant']+'('+','.join(pat(s) for _,s in p['subs'])+')'
    if k=='leaf': return '('+','.join('%d:%s'%(i,pat(s)) for i,s in p['subs'])+')'
    if k=='deref': return '&'+pat(p['sub'])
    if k=='const': return p['v']
    if k=='or': return '|'.join(map(pat,p['pats']))
    if k=='wild': return '_'
    return k
def pp(e,ind=0):
    I='  '*ind
    if e is None: return 'null'
    k=e['k'];m='/*%s*/'%xn(e['x']) if e['x']>=0 else ''
    if k=='block':
        s=m+'{\n'
        for st in e['b']['stmts']:
            if st['k']=='expr': s+=I+'  '+pp(st['e'],ind+1)+';\n'
            else: s+=I+'  let '+pat(st['p'])+':'+tn(st['p']['ty'])+' = '+pp(st['i'],ind+1)+';\n'
        if e['b']['e']: s+=I+'  '+pp(e['b']['e'],ind+1)+'\n'
        return s+I+'}'
    if k=='match':
        return m+'match '+pp(e['s'],ind)+' {\n'+''.join(I+'  '+pat(a['p'])+(' if '+pp(a['g'],ind) if a['g'] else '')+' => '+pp(a['b'],ind+1)+'\n' for a in e['arms'])+I+'}'
    if k=='if': return m+'if '+pp(e['c'],ind)+' '+pp(e['t'],ind)+' else '+pp(e['f'],ind)
    if k=='call':
        f=T[e['fty']]
        return m+(tn(e['fty']))+'('+', '.join(pp(a,ind) for a in e['args'])+')'
    if k=='var': return '_%d'%e['v']
    if k in('deref','borrow','cast','never','coerce','loop','return','break'): return m+k+' '+pp(e.get('e'),ind)
    if k=='lit': return repr(e['v'])
    if k in('bin','logic'): return '(%s %s %s)'%(pp(e['a'],ind),e['op'],pp(e['b'],ind))
    if k=='un': return e['op']+' '+pp(e['e'],ind)
    if k=='field': return pp(e['e'],ind)+'.'+e['f']
    if k=='tuple': return '('+', '.join(pp(a,ind) for a in e['es'])+')'
    if k=='array': return '['+', '.join(pp(a,ind) for a in e['es'])+']'
    if k=='adt': return m+e['adt'].split('::')[-1]+'::'+e['variant']+'{'+', '.join(f+':'+pp(x,ind) for f,x in e['fields'])+'}'
    if k=='closure': return m+'|'+','.join(pat(p['p']) if p['p'] else 'self' for p in e['body']['params'])+'| '+pp(e['body']['value'],ind)
    if k=='assign': return pp(e['a'],ind)+' := '+pp(e['b'],ind)
    if k=='let': return 'LET '+pat(e['p'])+' = '+pp(e['e'],ind)
    if k=='const': return e['d']
    return k+str({a:b for a,b in e.items() if a not in('k','ty','x','l')})
if __name__=='__main__':
    for b in D['bodies']:
        bb=b['body']
        if bb and len(sys.argv)>2 and any(bb['d'].endswith('::'+n) for n in sys.argv[2:]):
            print('fn',bb['d'],'('+', '.join((pat(p['p']) if p['p'] else '?')+':'+tn(p['ty']) for p in bb['params'])+')','->',tn(bb['ret']),bb['file'],bb['line'],bb['end'])
            print(pp(bb['value']))
