import json,sys
d=json.load(open('/tmp/thir.json'))
S={}
def w(x,fn):
    if isinstance(x,dict):
        if x.get('k')=='Call' and x.get('f'):
            f=x['f']
            S.setdefault(f['p'],{}).setdefault((f.get('resolved') if f.get('resolved')!=f['p'] else '') or '-',set()).add(fn)
        if x.get('k')=='Zst' and x['ty'].get('k')=='fndef': S.setdefault('REF '+str(x['ty'].get('p')),{}).setdefault('',set()).add(fn)
        for v in x.values(): w(v,fn)
    elif isinstance(x,list):
        for v in x: w(v,fn)
skip=('fmt','Debug>','Display')
for f in d['fns']:
    if f['body'] and not any(s in f['path'].split('::')[-2:][0] for s in skip) and not f['path'].endswith('::fmt'): w(f['body'],f['path'])
for k in sorted(S): print(k,'=>',[a.replace('core::','').replace('iter::traits::iterator::','') for a in list(S[k])[:2]], [x[-40:] for v in S[k].values() for x in v][:2])
