"""writes data.rs: valid sequences used as search inputs (from the repository's published results)"""
import glob,re,os
out=[]
for n in range(1,22):
    for f in ("result.qseq","result-qts.qseq"):
        p=f"/repo/wts-results/find_{n}/{f}"
        if not os.path.exists(p): continue
        rows=re.findall(r"\[([+-]+)\]",open(p).read())
        qs=["|".join(rows[i:i+4]) for i in range(0,len(rows),4)]
        k=max(1,len(qs)//6)
        out+= qs[::k][:6] if f=="result.qseq" else qs[1::k][:3]
out=list(dict.fromkeys(out))
open("/verif/harness/data.rs","w").write("#[allow(dead_code)]\npub static WTS: &[&str] = &[\n"+"".join(f'    "{q}",\n' for q in out)+"];\n")
print(len(out))
