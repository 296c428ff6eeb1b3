# Generates sim/sut/entries.go: the readers of the library.
import re,subprocess,os
out=subprocess.run("grep -rnE '^func (Read|Parse|Get|Compute)[A-Za-z0-9]*\\(' /repo/pkg/bds /repo/pkg/adsb /repo/pkg/acas/ra/resolution_advisory.go --include=*.go | grep -v _test | grep -v /fields/ | grep -v adsb/reader",shell=True,capture_output=True,text=True).stdout
imps={};rows=[]
for l in out.splitlines():
    path,_,sig=l.split(':',2)
    pkg=os.path.dirname(path).replace('/repo/','')
    m=re.match(r'func (\w+)\((.*?)\) \(',sig)
    name,args=m.groups()
    alias=pkg.replace('pkg/','').replace('/','_').replace('bds_','')
    imps[alias]=pkg
    cargs=[]
    for a in args.split(', '):
        n=a.split(' ',1)[0]
        if 'ADSBVersion' in a: cargs.append('in.V')
        elif n=='data': cargs.append('b')
        elif n=='nicSupplementA': cargs.append('in.A')
        elif n.startswith('nicSupplementC'): cargs.append('in.C')
        else: raise Exception(a)
    rows.append((pkg.replace('pkg/','')+'.'+name,alias,name,', '.join(cargs)))
for n,a,p,f,c in (('modes/reader.ReadMessage','modes_reader','pkg/modes/reader','ReadMessage','b'),('adsb/reader.ReadADSBMessage','adsb_reader','pkg/adsb/reader','ReadADSBMessage','in.V, in.A, in.C, b')):
    imps[a]=p; rows.append((n,a,f,c))
s='''// Code generated by tools/mkentries.py. DO NOT EDIT.

package sut

import (
'''
for a,p in sorted(imps.items(),key=lambda x:x[1]): s+='\t%s "github.com/twuillemin/modes/%s"\n'%(a,p)
s+='''
	"github.com/twuillemin/modes/pkg/adsb"
)

// In is what an entry point may take besides the bytes.
type In struct {
	V    adsb.ADSBVersion
	A, C bool
}

// Entry is one entry point of the library.
type Entry struct {
	Name string
	Call func(in In, b []byte) (interface{}, error)
}

// Entries are the readers of single messages.
var Entries = []Entry{
'''
for n,a,f,c in sorted(rows): s+='\t{"%s", func(in In, b []byte) (interface{}, error) { return %s.%s(%s) }},\n'%(n,a,f,c)
s+='}\n'
open('/verif/sim/sut/entries.go','w').write(s)
os.system('gofmt -w /verif/sim/sut/entries.go')
