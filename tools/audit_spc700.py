import json,re
def forms(c): return [(t,p) for t,p in map(json.loads,open('spec/%s.forms'%c))]
T={}
for i,m in enumerate("OR AND EOR CMP ADC SBC".split()):
    b=i*32
    for o,a in {4:"A,z",5:"A,a",6:"A,(X)",7:"A,(z+X)",8:"A,#z",9:"z,z",0x14:"A,z+X",0x15:"A,a+X",0x16:"A,a+Y",0x17:"A,(z)+Y",0x18:"z,#z",0x19:"(X),(Y)"}.items(): T[b+o]=m+" "+a
for i,m in enumerate("ASL ROL LSR ROR DEC INC".split()):
    b=i*32
    T[b+0xb]=m+" z";T[b+0xc]=m+" a";T[b+0x1b]=m+" z+X";T[b+0x1c]=m+" A"
for i,m in enumerate("BPL BMI BVC BVS BCC BCS BNE BEQ".split()): T[i*32+16]=m+" r"
T.update({0:"NOP",0x20:"CLRP",0x40:"SETP",0x60:"CLRC",0x80:"SETC",0xa0:"EI",0xc0:"DI",0xe0:"CLRV",0x0a:"OR1 C,b",0x2a:"OR1 C,/b",0x4a:"AND1 C,b",0x6a:"AND1 C,/b",0x8a:"EOR1 C,b",0xaa:"MOV1 C,b",0xca:"MOV1 b,C",0xea:"NOT1 b",
0x0d:"PUSH PSW",0x2d:"PUSH A",0x4d:"PUSH X",0x6d:"PUSH Y",0x8e:"POP PSW",0xae:"POP A",0xce:"POP X",0xee:"POP Y",0x0e:"TSET1 a",0x4e:"TCLR1 a",0x0f:"BRK",0x2f:"BRA r",0x4f:"PCALL z",0x6f:"RET",0x7f:"RETI",0x1f:"JMP (a+X)",0x3f:"CALL a",0x5f:"JMP a",
0x1a:"DECW z",0x3a:"INCW z",0x5a:"CMPW YA,z",0x7a:"ADDW YA,z",0x9a:"SUBW YA,z",0xba:"MOVW YA,z",0xda:"MOVW z,YA",0x1d:"DEC X",0x3d:"INC X",0xdc:"DEC Y",0xfc:"INC Y",0x1e:"CMP X,a",0x3e:"CMP X,z",0xc8:"CMP X,#z",0x5e:"CMP Y,a",0x7e:"CMP Y,z",0xad:"CMP Y,#z",
0x2e:"CBNE z,r",0xde:"CBNE z+X,r",0x6e:"DBNZ z,r",0xfe:"DBNZ Y,r",0x5d:"MOV X,A",0x7d:"MOV A,X",0xdd:"MOV A,Y",0xfd:"MOV Y,A",0x9d:"MOV X,SP",0xbd:"MOV SP,X",0xcd:"MOV X,#z",0x8d:"MOV Y,#z",0x8f:"MOV z,#z",0xfa:"MOV z,z",0xe8:"MOV A,#z",0xe6:"MOV A,(X)",0xbf:"MOV A,(X)+",0xe4:"MOV A,z",0xf4:"MOV A,z+X",0xe5:"MOV A,a",0xf5:"MOV A,a+X",0xf6:"MOV A,a+Y",0xe7:"MOV A,(z+X)",0xf7:"MOV A,(z)+Y",
0xf8:"MOV X,z",0xf9:"MOV X,z+Y",0xe9:"MOV X,a",0xeb:"MOV Y,z",0xfb:"MOV Y,z+X",0xec:"MOV Y,a",0xc6:"MOV (X),A",0xaf:"MOV (X)+,A",0xc4:"MOV z,A",0xd4:"MOV z+X,A",0xc5:"MOV a,A",0xd5:"MOV a+X,A",0xd6:"MOV a+Y,A",0xc7:"MOV (z+X),A",0xd7:"MOV (z)+Y,A",0xd8:"MOV z,X",0xd9:"MOV z+Y,X",0xc9:"MOV a,X",0xcb:"MOV z,Y",0xdb:"MOV z+X,Y",0xcc:"MOV a,Y",
0x9e:"DIV YA,X",0x9f:"XCN A",0xbe:"DAS A",0xcf:"MUL YA",0xdf:"DAA A",0xed:"NOTC",0xef:"SLEEP",0xff:"STOP"})
rep=[];seen=set()
for t,ps in forms("spc700"):
    for d,e in ps:
        tok=e.split()
        if "," in tok[0]: continue
        op=int(tok[0],16);seen.add(op); w=T.get(op)
        x=re.sub(r"\.[BW]\b","",t)
        if w:
            ks=re.findall(r"\b[zarb]\b",w)
            ks=[k for k in ks]
            it=iter(ks)
            x=re.sub(r"\{v\}[.,]\{v\}$" if "b" in ks and not w.endswith("b,C") else r"\{v\}[.,]\{v\}(?=,C)" if "b" in ks else r"$^","b",x)
            x=re.sub(r"\{.\}",lambda m:next(it,"?"),x)
            it2=len(tok)-1
            nb=sum({"z":1,"r":1,"a":2,"b":2}[k] for k in ks)
            if nb!=it2: x+="!len"
        # order of operands
        if x!=w or (len(ks)==2): rep.append((t,e,w))
print(len(rep),rep); print([T[k] for k in T if k not in seen])
