import subprocess
def sub(p, a, b, cnt=1):
    s=open(p).read(); assert s.count(a)==cnt,(p,a,s.count(a)); open(p,'w').write(s.replace(a,b))
def commit(msg):
    subprocess.check_call(["git","commit","-qam",msg])
    print(subprocess.check_output(["git","log","--oneline","-1"]).decode().strip())
