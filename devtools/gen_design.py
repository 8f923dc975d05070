import sys,re,glob,json,os
os.chdir('/verif'); sys.path[:0]=['.','devtools']
import props,mech
cost=json.load(open('devtools/cost.json'))
sc={}
for f in sorted(glob.glob('harness/*.go')):
    s=open(f).read()
    for m in re.finditer(r'(reg|regDeep|regRace)\("(P\d+)", ("[^"\n]*"(?:\+\w+)?|[\w.]+(?:\+"[^"]*")?(?:\+\w+)?), "((?:[^"\\]|\\.)*)"',s):
        sc.setdefault(m[2],[]).append(({'reg':'','regDeep':' (thorough)','regRace':' (race build)'}[m[1]],m[3].replace('"+g','*').replace('"',''),m[4]))
o=open('devtools/design_head.md').read()
o+='## Properties\n\nEach is decided by exhaustive enumeration of executions of the real code within the stated bounds.\n'
for p in props.PROPS:
    i=p['id']
    o+=f"\n### {i} - {p['title']}\n\n{mech.MECH[i]}\n\n*Bounds:* {p['text']}. *Cost (quick):* about {cost.get(i,'?')} s on 8 cores. *Beyond the tests:* {p['tests']}\n"
    if i in sc:
        o+='\n'+''.join(f"* `{n}`{k}: {t}\n" for k,n,t in sc[i])
o+=open('devtools/design_tail.md').read()
if os.path.exists('devtools/caught.json'):
    c=json.load(open('devtools/caught.json'))
    o+='\n## Planted changes\n\nEach compiles, passes the stable tests and has a demonstration (`seeded/<id>`). "Caught by" lists the checks that report a violation with it (quick tier).\n\n| id | property | what it breaks | needs | caught by |\n|---|---|---|---|---|\n'
    for d in sorted(glob.glob('seeded/*')):
        b=os.path.basename(d); m=json.load(open(d+'/meta.json'))
        o+=f"| {b} | {m['property']} | {m['what_it_breaks']} | {m['needs']} | {c.get(b,'?')} |\n"
open('DESIGN.md','w').write(o)
