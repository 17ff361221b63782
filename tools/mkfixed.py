import subprocess, json
M = {'0de5767':'C06','fbd0af3':'C06','d39dcc0':'C01','7e270ad':'C01','1c90edc':'C01','b9c6afb':'C03','d843e34':'C03','3d3d4a3':'C03','1d3d4a3':'C03','0983ac2':'C03','a297649':'C01','30f2b19':'C01','dc4a947':'C01','eefc789':'C01','82c7179':'C01','c388c53':'C01','65f71d4':'C01','a747897':'C01','ffddaf3':'C02','474bacf':'C02','c3832ee':'C22','118d9c6':'C02','fcec48e':'C02','fa5268e':'C01','11842b3':'C10','07fbc84':'C10','6b722b2':'C10','186d01c':'C13','f184d48':'C12','1293c73':'C12','444b082':'C12','b905ffe':'C11','bf44040':'C11','5663801':'C11','4f88629':'C11','8f71cf1':'C11','4919bee':'C11','97ac4b5':'C11','c54de04':'C14','7de5515':'C14','4b9852b':'C14','78c0887':'C14','c12760c':'C14','c46c2f2':'C14','2aef233':'C08','2e904a9':'C18','4449c84':'C08','3b470a6':'C14','f3be29d':'C18','4c417ce':'C06','f441e30':'C01','1415800':'C14','b8be97a':'C09','c811f48':'C24','158cdd8':'C05','f3b4a93':'C15','65f20a7':'C15','11c9ce6':'C15','465447f':'C15','eb1540f':'C15','b445b8a':'C15','eca77ed':'C15','e1ac7f7':'C18','2889edd':'C15','effd21c':'C15','b953f71':'C16','f71fec8':'C17','ed2f7fe':'C16','ce58d80':'C16','74ee87a':'C16','872d793':'C18','69deca7':'C16','3a2ad88':'C17','63d826d':'C17','cb4dc7e':'C19','a6c3f95':'C17','c314e59':'C17','9b18ca9':'C17','0cfd738':'C17','62a18d1':'C07','4b20af4':'C08','392067a':'C08','78353ff':'C23','b4ef531':'C22','d968794':'C22','0cdfedb':'C19','134f1d6':'C20','48207b0':'C20','a2892f3':'C20','77dabb6':'C20','a744ccd':'C06','9b06b90':'C06','2ed2fa8':'C04','6bd29a2':'C04','1e93f31':'C05','9f670d8':'C04','e3a464b':'C04','2816cfc':'C04','e5e0613':'C05','07357ad':'C05','e02bd71':'C05','e375703':'C05','aa57bc3':'C05','d2095a8':'C05','35d4aee':'C03','7d78809':'C03','aa1d9b4':'C03','69b75de':'C09','146d256':'C05','b3fb0db':'C05','26d4063':'C05','3d95f70':'C18','c909596':'C12','a17f882':'C12','ac4e8d5':'C14','65037e3':'C18','e3aea38':'C02','9aa9456':'C06','a2ba073':'C10','72b970c':'C02','20d20c9':'C27','2371e52':'C28','d7f7290':'C28','c6abdb9':'C17','672177a':'C17','9bda643':'C16','ed10cfd':'C17','7be3092':'C17'}
lines = subprocess.run(['git','-C','/repo','log','--reverse','--format=%h %s'],stdout=subprocess.PIPE,text=True).stdout.splitlines()[1:]
keep = [l for l in open('/verif/known_findings.jsonl') if json.loads(l)['status'] == 'known']
out = []
for l in lines:
    h, s = l.split(' ', 1)
    assert s.startswith('fix: ')
    p = M[h[:7]]
    out.append(json.dumps(dict(property=p, status='fixed', commit=h, what='fixed: property=%s %s %s' % (p, h, s[5:])))+'\n')
open('/verif/known_findings.jsonl','w').writelines(keep + out)
