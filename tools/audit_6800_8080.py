import json,re
def forms(c): return [(t,p) for t,p in map(json.loads,open('spec/%s.forms'%c))]
# 8080
R="BCDEHLMA"; RP=["B","D","H","SP"]; C=["NZ","Z","NC","C","PO","PE","P","M"]
T={0:"NOP",7:"RLC",15:"RRC",0x17:"RAL",0x1f:"RAR",0x27:"DAA",0x2f:"CMA",0x37:"STC",0x3f:"CMC",0x76:"HLT",0xc9:"RET",0xe9:"PCHL",0xf9:"SPHL",0xe3:"XTHL",0xeb:"XCHG",0xf3:"DI",0xfb:"EI",0xc3:"JMP NN",0xcd:"CALL NN",0xd3:"OUT N",0xdb:"IN N",0x22:"SHLD NN",0x2a:"LHLD NN",0x32:"STA NN",0x3a:"LDA NN",2:"STAX B",0x12:"STAX D",0xa:"LDAX B",0x1a:"LDAX D"}
for i in range(4):
    T[i*16+1]="LXI %s,NN"%RP[i];T[i*16+9]="DAD "+RP[i];T[i*16+3]="INX "+RP[i];T[i*16+11]="DCX "+RP[i]
    T[0xc1+i*16]="POP "+["B","D","H","PSW"][i];T[0xc5+i*16]="PUSH "+["B","D","H","PSW"][i]
for i in range(8):
    T[i*8+4]="INR "+R[i];T[i*8+5]="DCR "+R[i];T[i*8+6]="MVI %s,N"%R[i]
    T[0xc0+i*8]="R"+C[i];T[0xc2+i*8]="J"+C[i]+" NN";T[0xc4+i*8]="C"+C[i]+" NN";T[0xc6+i*8]=["ADI","ACI","SUI","SBI","ANI","XRI","ORI","CPI"][i]+" N"
    for j in range(8):
        if i*8+j!=0x36: T[0x40+i*8+j]="MOV %s,%s"%(R[i],R[j])
        T[0x80+i*8+j]=["ADD","ADC","SUB","SBB","ANA","XRA","ORA","CMP"][i]+" "+R[j]
def cmp(cpu,T,fix=lambda t:t):
    rep=[];seen=set()
    for t,ps in forms(cpu):
        for d,e in ps:
            tok=e.split()
            if "," in tok[0]: continue
            op=int(tok[0],16); nb=len(tok)-1; seen.add(op)
            x=re.sub(r"\{.\}","NN" if nb==2 else "N",t)
            if fix(x)!=T.get(op): rep.append((t,e,T.get(op)))
    print(cpu,len(rep),rep[:int(40)]); print("  missing",[(hex(k),T[k]) for k in T if k not in seen][:20])
cmp("8080",T)
# 8008: new/old? just print
# 6800
M={}
inh={0x01:"NOP",6:"TAP",7:"TPA",8:"INX",9:"DEX",0xa:"CLV",0xb:"SEV",0xc:"CLC",0xd:"SEC",0xe:"CLI",0xf:"SEI",0x10:"SBA",0x11:"CBA",0x16:"TAB",0x17:"TBA",0x19:"DAA",0x1b:"ABA",0x30:"TSX",0x31:"INS",0x32:"PULA",0x33:"PULB",0x34:"DES",0x35:"TXS",0x36:"PSHA",0x37:"PSHB",0x39:"RTS",0x3b:"RTI",0x3e:"WAI",0x3f:"SWI"}
M.update(inh)
for c,m in zip((0x20,0x22,0x23,0x24,0x25,0x26,0x27,0x28,0x29,0x2a,0x2b,0x2c,0x2d,0x2e,0x2f,0x8d),"BRA BHI BLS BCC BCS BNE BEQ BVC BVS BPL BMI BGE BLT BGT BLE BSR".split()): M[c]=m+" N"
for o,m in {0:"NEG",3:"COM",4:"LSR",6:"ROR",7:"ASR",8:"ASL",9:"ROL",0xa:"DEC",0xc:"INC",0xd:"TST",0xe:"JMP",0xf:"CLR"}.items():
    if m!="JMP": M[0x40+o]=m+"A";M[0x50+o]=m+"B"
    M[0x60+o]=m+" N,X";M[0x70+o]=m+" NN"
for o,m in {0:"SUB",1:"CMP",2:"SBC",4:"AND",5:"BIT",6:"LDA",7:"STA",8:"EOR",9:"ADC",0xa:"ORA",0xb:"ADD"}.items():
    for a,b in (("A",0x80),("B",0xc0)):
        if m!="STA": M[b+o]=m+a+" #N"
        M[b+0x10+o]=m+a+" N";M[b+0x20+o]=m+a+" N,X";M[b+0x30+o]=m+a+" NN"
for m,b,im in (("CPX",0x8c,1),("LDS",0x8e,1),("STS",0x8f,0),("LDX",0xce,1),("STX",0xcf,0)):
    if im: M[b]=m+" #NN"
    M[b+0x10]=m+" N";M[b+0x20]=m+" N,X";M[b+0x30]=m+" NN"
M[0xad]="JSR N,X";M[0xbd]="JSR NN"
def f68(x):
    x=re.sub(r"\.[BW]\b","",x)
    x=re.sub(r"^(NEG|COM|LSR|ROR|ASR|ASL|ROL|DEC|INC|TST|CLR|PUL|PSH|SUB|CMP|SBC|AND|BIT|LDA|STA|EOR|ADC|ORA|ADD) ([AB])\b",r"\1\2",x)
    x=x.replace("LDAA ","LDAA ").replace("LDA A","LDAA")
    return x
cmp("6800",M,f68)
N=dict(M)
N.update({4:"LSRD",5:"ASLD",0x21:"BRN N",0x38:"PULX",0x3a:"ABX",0x3c:"PSHX",0x3d:"MUL",0x9d:"JSR N"})
for m,b,im in (("SUBD",0x83,1),("ADDD",0xc3,1),("LDD",0xcc,1),("STD",0xcd,0)):
    if im: N[b]=m+" #NN"
    N[b+0x10]=m+" N";N[b+0x20]=m+" N,X";N[b+0x30]=m+" NN"
cmp("6801",N,f68)
P={}
for c,m in {0x0:"NEG",3:"COM",4:"LSR",6:"ROR",7:"ASR",8:"ASL",9:"ROL",0xa:"DEC",0xc:"INC",0xd:"TST",0xe:"JMP",0xf:"CLR"}.items():
    P[("",c)]=m+" N";P[("",c+0x60)]=m+" IX";P[("",c+0x70)]=m+" NN"
    if m!="JMP":P[("",c+0x40)]=m+"A";P[("",c+0x50)]=m+"B"
for c,m in zip(range(0x20,0x30),"BRA BRN BHI BLS BCC BCS BNE BEQ BVC BVS BPL BMI BGE BLT BGT BLE".split()):
    P[("",c)]=m+" N"
    if m!="BRA": P[("10",c)]="L"+m+" NN"
P[("",0x16)]="LBRA NN";P[("",0x17)]="LBSR NN";P[("",0x8d)]="BSR N"
for c,m in {0x12:"NOP",0x13:"SYNC",0x19:"DAA",0x1d:"SEX",0x39:"RTS",0x3a:"ABX",0x3b:"RTI",0x3d:"MUL",0x3f:"SWI",0x1a:"ORCC #N",0x1c:"ANDCC #N",0x3c:"CWAI #N",0x30:"LEAX IX",0x31:"LEAY IX",0x32:"LEAS IX",0x33:"LEAU IX"}.items(): P[("",c)]=m
P[("10",0x3f)]="SWI2";P[("11",0x3f)]="SWI3"
for o,m in {0:"SUB",1:"CMP",2:"SBC",4:"AND",5:"BIT",6:"LD",7:"ST",8:"EOR",9:"ADC",0xa:"OR",0xb:"ADD"}.items():
    for a,b in (("A",0x80),("B",0xc0)):
        if m!="ST": P[("",b+o)]=m+a+" #N"
        P[("",b+0x10+o)]=m+a+" N";P[("",b+0x20+o)]=m+a+" IX";P[("",b+0x30+o)]=m+a+" NN"
def w(pre,m,b,im=True):
    if im: P[(pre,b)]=m+" #NN"
    P[(pre,b+0x10)]=m+" N";P[(pre,b+0x20)]=m+" IX";P[(pre,b+0x30)]=m+" NN"
w("","SUBD",0x83);w("","ADDD",0xc3);w("","CMPX",0x8c);w("","LDX",0x8e);w("","STX",0x8f,False);w("","LDD",0xcc);w("","STD",0xcd,False);w("","LDU",0xce);w("","STU",0xcf,False)
w("10","CMPD",0x83);w("10","CMPY",0x8c);w("10","LDY",0x8e);w("10","STY",0x8f,False);w("10","LDS",0xce);w("10","STS",0xcf,False);w("11","CMPU",0x83);w("11","CMPS",0x8c)
P[("",0x9d)]="JSR N";P[("",0xad)]="JSR IX";P[("",0xbd)]="JSR NN"
inv=P; rep=[];seen=set()
posts={}
for t,ps in forms("6809"):
    for d,e in ps:
        tok=e.split(); pre=""
        if tok[0] in("10","11"): pre=tok[0];tok=tok[1:]
        op=int(tok[0],16); seen.add((pre,op)); want=P.get((pre,op))
        tt=re.sub(r"^(\w+),",r"\1 ,",t); mn=tt.split()[0].split(".")[0]; t=tt; arg=t[len(t.split()[0]):].strip()
        if want and want.endswith(" IX"):
            if want.split()[0]!=mn: rep.append((t,e,want))
            else: posts.setdefault((re.sub(r"\.[BW]","",t.split()[0][len(mn):]+" "+arg),str(d)," ".join(tok[1:])),set()).add(mn)
        else:
            x=re.sub(r"\{.\}","NN" if len(tok)==3 else "N",mn+(" "+arg if arg else ""))
            x=x.replace("BLO","BCS").replace("BHS","BCC")
            if x!=want: rep.append((t,e,want))
rep=[r for r in rep if not r[0].startswith("LSL")];print("6809",len(rep),rep[:40]); print("missing",[(k,P[k]) for k in P if k not in seen])
from collections import Counter
c=Counter(len(v) for v in posts.values()); print(c)
for k,v in sorted(posts.items()):
    if len(v)<40: print(k,sorted(v))
print("-----")
for k,v in sorted(posts.items()):
    if "X" in k[0] and not any(r in k[0] for r in "YUS") or "P" in k[0] or not re.search("[XYUS]",k[0]): print(k)
