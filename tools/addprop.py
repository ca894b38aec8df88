import json,sys
P='/verif/props.json'
p=json.load(open(P))
for a in sys.argv[1:]:
    k,o,s=a.split(':')[:3]; o=int(o); s=int(s)
    e={"quick":{"opt":o,"san":s},"thorough":{"opt":o*30,"san":s*25,"fuzz_s":300}}
    for x in p.get(k,{}):
        if x not in e: e[x]=p[k][x]
    p[k]=e
p=dict(sorted(p.items()))
open(P,'w').write("{\n"+",\n".join(' %s: %s'%(json.dumps(k),json.dumps(v)) for k,v in p.items())+"\n}\n")
