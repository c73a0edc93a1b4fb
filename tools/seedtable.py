"""Write the seed/catch table of DESIGN.md section 7 from seeded/*/meta.json (between the two markers)."""
import json,os,re,sys
here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows=[]
for d in sorted(os.listdir(here+"/seeded")):
    m=json.load(open(f"{here}/seeded/{d}/meta.json"))
    rows.append(f"| {d} | {m['property']} | {m['what_it_breaks'].split('. ')[0][:150]} |")
t="<!-- seeds -->\n| change | caught by | what it breaks |\n|---|---|---|\n"+"\n".join(rows)+"\n<!-- /seeds -->"
p=here+"/DESIGN.md"; s=open(p).read()
s=re.sub(r"SEEDTABLE|<!-- seeds -->.*?<!-- /seeds -->",lambda m:t,s,flags=re.S)
open(p,"w").write(s)
