import subprocess,sys
def fix(msg, edits):
    for f,a,b in edits:
        p='/repo/src/mpack/'+f; s=open(p).read()
        assert s.count(a)==1,(msg,f,s.count(a))
        open(p,'w').write(s.replace(a,b))
    subprocess.check_call(['git','-C','/repo','commit','-qam','fix: '+msg])
    print(subprocess.check_output(['git','-C','/repo','log','--oneline','-1']).decode().strip())
