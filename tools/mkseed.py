import os,subprocess,sys,json
def mk(i, prop, needs, breaks, subs, demo, defs="", hdr=None):
    """subs: list of (file, old, new)"""
    d="/verif/seeded/"+i; os.makedirs(d,exist_ok=True)
    w="/tmp/mkseed"; subprocess.call(["rm","-rf",w]); os.makedirs(w)
    subprocess.check_call("git -C /repo archive HEAD src | tar x -C "+w,shell=True)
    subprocess.check_call("cd %s && git init -q && git add -A && git -c user.name=a -c user.email=a commit -qm a"%w,shell=True)
    for f,o,n in subs:
        p=os.path.join(w,"src/mpack",f); s=open(p).read()
        assert s.count(o)==1,(i,f,s.count(o),o)
        open(p,"w").write(s.replace(o,n))
    diff=subprocess.check_output(["git","-C",w,"diff"]).decode()
    open(d+"/patch.diff","w").write(diff)
    open(d+"/demo.c","w").write(demo)
    if hdr is not None:
        open(d+"/demo.h","w").write(hdr); defs+=' -include "$here/demo.h"'
    open(d+"/demo.sh","w").write('''#!/bin/bash
# run in /repo: builds the library with a small program that fails when the behaviour is broken
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
gcc -g -w -fsanitize=address -fno-sanitize-recover=all -DMPACK_EXTENSIONS=1 -DMPACK_COMPATIBILITY=1 %s -Isrc/mpack -Isrc "$here/demo.c" src/mpack/*.c -lm -o "$t/demo" || exit 2
cd "$t" && ASAN_OPTIONS=detect_leaks=0 timeout 60 ./demo
''' % defs)
    json.dump(dict(property=prop,needs=needs,what_it_breaks=breaks),open(d+"/meta.json","w"),indent=1)
    subprocess.call(["rm","-rf",w])
