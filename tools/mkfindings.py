import json,subprocess
M={'C03':'6636723','C06':'e18d364 c18ccc1 9669b83 09b5741','C07':'b363eb3','C09':'7bd712f 68728b5','C10':'894623d ad27473 8566f81','C11':'0f122ca','C12':'d0ca968 d8329c2 9f8755e','C21':'8c0facb','C28':'fc16e8b a7a1ca3 8f1a597 b570585 f310828 ae6c108','C14':'6903438 213c7ee 9440021 d34b7a2 99f9338 2fd44b4 feaa2a1 068d19d 4a5621f 447318a a119687 f423923 6a34fcc ff3a14b 2e872e4','C13':'2edae05 866371b','C15':'23b2463','C16':'b94ae0e e7acfb7 20b8fc9 85d0666 2b90c00 702d9ef ebd0fc1','C18':'69bfcfb ebc29de 35c1a8a 3bdf35f a4cfcfe','C24':'689f03f','C22':'d422d2c','C23':'35e2dd6 21b7a55 0f01a09 9934feb','C25':'9d368cb','C26':'57ef688 860edc2 adc585e a65209c 63ba5f8 13239c6'}
m={h:p for p,hs in M.items() for h in hs.split()}
out=[]
for l in subprocess.run(['git','-C','/repo','log','--reverse','--format=%h %s'],capture_output=True,text=True).stdout.splitlines():
    h,s=l.split(' ',1)
    if s.startswith('fix:'):
        out.append("fixed: property=%s %s %s"%(m.pop(h),h,s[5:]))
assert not m,m
json.dump({"findings":[],"fixed":out},open('/verif/KNOWN_FINDINGS.json','w'),indent=1)
print(len(out))
