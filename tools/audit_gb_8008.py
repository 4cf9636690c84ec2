import json,re,sys
sys.path.insert(0,"tools"); import audit_spec as A
def forms(c): return [(t,p) for t,p in map(json.loads,open('spec/%s.forms'%c))]
# gb
rep=[]
GB={0x08:"LD (NN),SP",0x10:"STOP",0x22:"LDI (HL),A",0x2a:"LDI A,(HL)",0x32:"LDD (HL),A",0x3a:"LDD A,(HL)",0xd9:"RETI",0xe0:"LDH (N),A",0xf0:"LDH A,(N)",0xe2:"LD ($FF00+C),A",0xf2:"LD A,($FF00+C)",0xe8:"ADD SP,N",0xea:"LD (NN),A",0xfa:"LD A,(NN)",0xf8:"LD HL,SP+N"}
seen=set()
for t,ps in forms("gb"):
    for d,e in ps:
        for vals,bs in A.enumerate_piece(d,e):
            it=iter(zip(vals,d))
            def sub(m):
                v,(lo,hi,st)=next(it)
                return str(v) if hi-lo<=60 else {255:"N",127:"N",65535:"NN",65280+255:"NN"}.get(hi,"?")
            x=A.canon(re.sub(r"\{[sv]\}",sub,t)); x=re.sub(r"^(JR)(.*)\bN$",r"\1\2E",x)
            if bs[0]==0xcb:
                w=A.z80_dis(bs).replace("SLL","SWAP")
            else: w=GB.get(bs[0]) or A.z80_dis(bs)
            seen.add(bs[0] if bs[0]!=0xcb else (0xcb,bs[1]))
            if A.canon(str(w))!=x: rep.append((t,bs.hex(),w))
print("gb",len(rep),rep)
# 8008
print([ (t,p[0][1]) for t,p in forms("8008")][:200])
