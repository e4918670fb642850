#!/usr/bin/env python3
"""mkseed.py ID PROPERTY FILE: make seeded/ID from a description on stdin.

stdin: JSON {"edits":[[file,old,new],...],"needs":..,"breaks":..,"demo":go source of package main}
The demo is overlaid into the module as command zzdemo by demo.sh.
"""
import json,sys,os,subprocess,tempfile,shutil
sid,prop=sys.argv[1:3]
j=json.load(sys.stdin)
d=f"/verif/seeded/{sid}"; os.makedirs(d,exist_ok=True)
w=tempfile.mkdtemp(); subprocess.check_call(["git","clone","-q","/repo",w+"/r"])
r=w+"/r"
for f,a,b in j["edits"]:
    s=open(f"{r}/{f}").read()
    assert s.count(a)==1,(f,a,s.count(a))
    open(f"{r}/{f}","w").write(s.replace(a,b))
subprocess.check_call("gofmt -l $(git diff --name-only)",shell=True,cwd=r)
open(d+"/patch.diff","w").write(subprocess.check_output(["git","diff"],cwd=r,text=True))
open(d+"/demo.go","w").write(j["demo"].strip()+"\n")
open(d+"/demo.sh","w").write('''#!/bin/bash
# builds demo.go as a command inside the module (by overlay) and runs it
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d) || exit 3
trap 'rm -rf "$tmp"' EXIT
printf '{"Replace":{"%s/zzdemo/main.go":"%s/demo.go"}}' "$PWD" "$here" > "$tmp/o.json"
GOFLAGS=-mod=mod GOPROXY=off go build -overlay "$tmp/o.json" -o "$tmp/demo" ./zzdemo || exit 3
timeout 120 "$tmp/demo"
''')
os.chmod(d+"/demo.sh",0o755)
json.dump({"property":prop,"needs":j["needs"],"what_it_breaks":j["breaks"]},open(d+"/meta.json","w"),indent=1)
shutil.rmtree(w)
