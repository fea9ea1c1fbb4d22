#!/usr/bin/env python3
# writes harness/core/src/checks/c15_table.rs: every run-time numeric function, by naming rule
T=['u8','u16','u32','u64','i8','i16','i32','i64']
def rng(t):
    n=int(t[1:]); return (0,2**n-1) if t[0]=='u' else (-2**(n-1),2**(n-1)-1)
def enc(o,t): a,b=rng(o),rng(t); return a[0]<=b[0] and a[1]>=b[1]
L=[]
for op in ['add','sub','mul','div','rem']:
    for l in T:
        for r in T:
            for o in T:
                if not(enc(o,l) and enc(o,r)): continue
                if l!=r and '64' in l+r: continue # not provided by the run-time library
                if l==r==o: n=f'{op}_{l}'
                elif l==r: n=f'{op}_{l}_{o}'
                else: n=f'{op}_{l}_{r}_{o}'
                L.append(f'    b!({n}, {op.capitalize()}, {l}, {r}, {o}),')
for l in T:
    for o in T:
        n=f'cast_{l}_{o}'
        if l!=o: L.append(f'    u!({n}, Cast, {l}, {o}),')
        uu=l[0]=='u' and o[0]=='u'
        wide=int(o[1:])>=int(l[1:])
        n='_%s'%l if l==o else f'_{l}_{o}'
        if l==o or uu or (l[0]=='u' and enc(o,l)) or (l[0]=='i' and wide): L.append(f'    u!(neg{n}, Neg, {l}, {o}),')
        if l==o or enc(o,l) or (l[0]=='i' and o[0]=='u' and wide): L.append(f'    u!(abs{n}, Abs, {l}, {o}),')
open('/verif/harness/core/src/checks/c15_table.rs','w').write('[\n'+'\n'.join(L)+'\n]\n')
print(len(L))
