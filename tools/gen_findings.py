import subprocess
M={}
def m(ids,*hs):
    for h in hs: M[h]=ids
m("C02","292ed83","fb1a854","76e2133","291aef1","9985818","d5195c0","7df68b7","3101169","c656b76")
m("C10","fe9c839"); m("C11","a50aed0","e4075d5"); m("C01","cbdbc11")
m("C01","b987800","1352577","6ef1bb4","38fcb0e","c393958","2441bcf","ebf85a7","f0d34ec","e1b927f","7203d09","223bee2","f3b9ac4")
m("C10","78b6d4f","31f68e6","6435296","075a939","1c64c4c","1a64c4c","2d395db","adddd57")
m("C04","79e1b9b","ca7975a"); m("C03","689e144","a8bdd17")
m("C05","8e59975"); m("C06","e36ea2f","5d93b2f")
m("C12","3281203","ed2ab0c","70e2326","8d8d555","f484549","27e0217")
m("C13","166613a","d92a313","ef74697")
m("C08","f81c82d","b60fcbc","5ccbd82"); m("C09","294d4fc","f99a673","93c7e6c","5b3e9ab")
m("C11","ea88594","bf39e03","cd6dfcc","4927a95","84f5ba9","36b03ad","1e5e238","2b55068","2c075b7","5e142aa")
m("C07","1e08395","53e4755","62acda1","1063633","3489699","aaefbad")
m("C18","e0c4dcb","9fc9937","d1b1775")
m("C17","15dca88","b7f15c9"); m("C16","753d07b")
m("C14","756502a","6a1eaa5","c0f18e2","dc34a55","a5d381d","253ed32")
m("C15","9a75183","bb49dbf","a2bd686")
log=subprocess.run(["git","-C","/repo","log","--reverse","--format=%h %s"],capture_output=True,text=True).stdout.splitlines()
out=["# Genuine defects of zachzurn/thermal. Lines that start with 'fixed:' are repaired by the commit and suppress nothing.",
"# Findings that are not repaired would be listed as 'finding: property=<id> <input>'; there are none.",""]
for l in log:
    h,s=l.split(" ",1)
    if s.startswith("fix: "):
        out.append(f"fixed: property={M[h]} {h} {s[5:]}")
open("/verif/known-findings.txt","w").write("\n".join(out)+"\n")
