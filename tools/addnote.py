import json,sys,subprocess
p='/verif/tools/checks.json'
d=json.load(open(p))
for a in sys.argv[1:]:
  k,v=a.split('=',1); d[k]={"note":v}
d=dict(sorted(d.items()))
json.dump(d,open(p,'w'),indent=1)
subprocess.check_call('cd /verif && python3 tools/mkprops.py && python3 tools/mkmanifest.py',shell=True)
