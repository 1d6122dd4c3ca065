import json,sys,subprocess
f='/verif/known_findings.json'; d=json.load(open(f)); h=sys.argv[3] if len(sys.argv)>3 else subprocess.check_output(['git','-C','/repo','rev-parse','--short','HEAD'],text=True).strip()
d.append(dict(property=sys.argv[1],status='fixed',commit=h,what='fixed: property=%s %s %s'%(sys.argv[1],h,sys.argv[2])))
json.dump(d,open(f,'w'),indent=1)
