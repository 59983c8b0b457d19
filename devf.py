"""dev.py on all units of contract files: devf.py [-b backend] c05 ..."""
import re,subprocess,sys,glob
a=sys.argv[1:]; pre=[]
if a[0]=="-b": pre=a[:2]; a=a[2:]
names=[]
for x in a:
    for f in glob.glob(f"/verif/contracts/{x}*.py"):
        names+=re.findall(r"@unit\((?:[^@]|\n)*?\)\ndef (\w+)\(c\)",open(f).read())
sys.exit(subprocess.call([sys.executable,"/verif/dev.py"]+pre+names))
