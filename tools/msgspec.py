#!/usr/bin/env python3
# writes contracts/msg.spec: the same clauses for each of the messages
import os
M=[("Ping",1,[]),("Pong",2,[]),("Syn",3,["Protocol","NodeID"]),("Ack",4,["NodeID"]),("Ok",5,[]),("Err",6,["Err"]),("Sub",7,["Feed"]),("Unsub",8,["Feed"]),("RqList",9,[]),("List",10,["*Feeds"]),("Root",11,["Feed","Nonce","Seq","$Value","Sig"]),("RqObject",12,["Key"]),("Object",13,["$Value"]),("RqPreview",14,["Feed"]),("RqPeers",15,["Feed"]),("Peers",16,["Feed"])]
o=["package node/msg","prop C23",""]
names=[]
def d(name, body):
    o.append("define %s(p, m, err) = %s" % (name, body)); names.append(name)
d("decEmpty","iff(len(p) == 0, err == ErrEmptyMessage)")
d("decType","imp(len(p) > 0, iff(p[0] < 1 || p[0] > 16, is(err, InvalidTypeError)))")
d("decWhichType","imp(is(err, InvalidTypeError), as(unboxed(err, InvalidTypeError), InvalidTypeError).typ == p[0])")
d("decIncomplete","imp(err == nil || err == ErrIncomplieDecoding, len(p) > 0 && 1 <= p[0] && p[0] <= 16)")
d("decResult","iff(err == nil, m != nil)")
for n,t,fs in M:
    g="len(p) > 0 && p[0] == %d"%t
    b="bytes(p[1:])"
    d("dec%sAccepted"%n,"imp(%s, iff(err == nil, desok(%s, %s) && desn(%s, %s) + 1 == len(p)))"%(g,n,b,n,b))
    d("dec%sRest"%n,"imp(%s, iff(err == ErrIncomplieDecoding, desok(%s, %s) && desn(%s, %s) + 1 != len(p)))"%(g,n,b,n,b))
    cs=["is(m, *%s)"%n]+(["unboxed(m, *%s) != nil"%n] if fs else [])
    for f in fs:
        u="unboxed(m, *%s)"%n
        if f[0]=="$": cs.append("bytes(%s.%s) == desf(%s, %s, %s)"%(u,f[1:],n,b,f[1:]))
        elif f[0]=="*": cs.append("seq(%s.%s) == desf(%s, %s, %s)"%(u,f[1:],n,b,f[1:]))
        else: cs.append("%s.%s == desf(%s, %s, %s)"%(u,f,n,b,f))
    d("dec%sContents"%n,"imp(err == nil && p[0] == %d, %s)"%(t," && ".join(cs)))
o.append("")
for n,t,fs in M:
    o.append("func (*%s).Type(m) (t)\n  modifies nothing\n  ensures t == %d\n"%(n,t))
    o.append("func (*%s).Encode(m) (p)"%n)
    if fs: o.append("  requires m != nil")
    o.append("  modifies nothing\n  ensures type: len(p) > 0 && p[0] == %d"%t)
    if not fs: o.append("  ensures length: len(p) == 1")
    elif n != "Peers": # its contents, slices within a slice, are beyond the model of the encoder
        o.append("  ensures length: len(p) == 1 + bslen(ser(m))")
        o.append("  ensures contents: bytes(p[1:]) == ser(m)")
    o.append("")
o.append("func Decode(p) (m, err)\n  modifies nothing")
for n in names: o.append("  ensures %s: %s(p, m, err)"%(n[3:],n))
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
open(V+"/contracts/msg.spec","w").write("\n".join(o)+"\n")
c=open(V+"/contracts/conn.spec").read()
i=c.index("  // decoded\n"); j=c.index("  // end\n")
c=c[:i]+"  // decoded\n"+"".join("  ensures %s: imp(len(raw) >= 9, %s(raw[8:], m, err))\n"%(n[3:],n) for n in names)+c[j:]
open(V+"/contracts/conn.spec","w").write(c)
