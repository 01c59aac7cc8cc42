import subprocess,sys
def new(**k):
    src="\n".join("%s=%r"%(a,b) for a,b in k.items())
    r=subprocess.run(['python3','/verif/tools/seed.py','new'],input=src,text=True,stdout=subprocess.PIPE,stderr=subprocess.STDOUT)
    print(r.stdout[:900]); sys.stdout.flush()
H='''package main

import (
	"fmt"
	"os"
%s
)

func main() {
%s}

func fail(a ...interface{}) {
	fmt.Println(a...)
	os.Exit(1)
}
'''
def prog(imports, body):
    return H%("".join('\t"%s"\n'%i for i in imports), body)
X="github.com/keyfuse/tokucore/"
