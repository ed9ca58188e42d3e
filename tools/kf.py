import subprocess,json
M={'a09a51a':'C30','a621b35':'C34','830b9e0':'C34','4c4af72':'C21','c4fa5cf':'C22','43ed1ec':'C22','ebf77a7':'C12','f936f5d':'C32','69c5a71':'C32','4b82625':'C32','633400d':'C33','7de3e14':'C21','ab8da40':'C17','61f84d5':'C30','a014e44':'C30','d4b9b94':'C20','08f0880':'C18','5bc3db9':'C13','66cc010':'C16','ece5f7a':'C16','0cf1359':'C30','a005b44':'C03','b2fc72d':'C08','3e79de9':'C03','bc5d6ab':'C03','c2d5aef':'C03','ceaaaab':'C05','797e39b':'C04','59866c8':'C07','b69b2e7':'C06','5890ac0':'C01','c0efd5d':'C12','7b55124':'C18','410413c':'C24','89e0c64':'C24','579ac5f':'C25','73010fe':'C25','881f62e':'C17','1f07b52':'C25','72f98f4':'C16','54f6059':'C17','a433630':'C17','dbfa1a7':'C13','ad7a51d':'C13','e3f981f':'C14','42a01a1':'C13','9615c23':'C05','c7eccf1':'C18','3c3c165':'C20','731ea3b':'C22','8b48fa3':'C28','f7dc049':'C21','9a9bd34':'C28','6030458':'C21','b066d53':'C29','3b7c97c':'C29','6e7aea6':'C20','b7f851e':'C20','14c8cdb':'C18','53334eb':'C26','9441663':'C18','eb6b9f8':'C16','7df0450':'C17','87bfd1e':'C18','fbff80c':'C18','0bc951b':'C18','1a27cac':'C22','2dac8fe':'C29','4922ae0':'C29','c9520f3':'C20','512ffb9':'C25','507a4e9':'C21','5bce33c':'C28','b41ca46':'C21','4002b42':'C05','ab70e7c':'C24','587cd3f':'C24','e4b8f93':'C24','0f38fbb':'C24','c695552':'C29','8299c32':'C25','dc8ba8f':'C25','084b949':'C25','d34c896':'C24','37cf681':'C24',
 'e1dcf5b':'C24','9145fa9':'C33','64f3eae':'C33','6bedfe3':'C29','37b428e':'C28','b380f8a':'C33','691852f':'C33','4ad01b0':'C17','93c996c':'C30',}
out=subprocess.run(['git','-C','/repo','log','--reverse','--format=%h %s'],capture_output=True,text=True).stdout.splitlines()
fixed=[]
for l in out:
    h,s=l.split(' ',1)
    if not s.startswith('fix: '): continue
    p=M.get(h[:7],'C01')
    if h[:7] not in M: print('??',l)
    fixed.append('fixed: property=%s %s %s'%(p,h,s[5:]))
try: old=json.load(open('/verif/known_findings.json'))['findings']
except Exception: old=[]
json.dump(dict(findings=old,fixed=fixed),open('/verif/known_findings.json','w'),indent=1)
print(len(fixed))
