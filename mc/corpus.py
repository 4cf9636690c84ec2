"""Feature-covering programs shared by several checks: {name: Unit list}.  Deterministic on purpose (no dates; random series only after .SEED)."""
MM = ".MEMORYMAP\nDEFAULTSLOT 0\nSLOT 0 0 $100\nSLOT 1 $100 $100\nSLOT 2 $C000 $100\n.ENDME\n.ROMBANKSIZE $100\n.ROMBANKS 2\n.EMPTYFILL $E5\n"

P = {}
def prog(name, cpu, units, files=None, link=None, lflags=("-r",), dirs=None):
    """units: [(unit, kind o/l, source)]"""
    P[name] = {"cpu": cpu, "units": units, "files": dict(files or {}), "link": link, "lflags": list(lflags)}

prog("data", "z80", [("a", "o", MM + """.ASCIITABLE
MAP "A" TO "Z" = 10
MAP " " = 99
.ENDA
.DEFINE K 3
.DEFINE FL 2.5
.DEFINE S "str"
.BANK 0 SLOT 0
.ORG 0
start:
.DB 1, $22, %1010, 'c', "text\\n", K+1, K*FL, S, -1
.DW 1000, start, start+K, $1234
.DL $102030, start
.DD $11223344, start
.DSB 3, $AA
.DSW 2, $1234
.ASC "HI YOU"
.ASCSTR "A", 7
.DBSIN 0.2, 4, 3.2, 120, 1.3
.DWCOS 0.2, 3, 3.2, 1024, 1.3
.SEED 123
.DBRND 4, 0, 10
.DWRND 2, 0, 1000
.ENUMID 0
.ENUMID ID_1
.ENUMID ID_2
.DB ID_1, ID_2
.HEX "a0A0ffDE"
.TABLE byte, word, byte
.ROW $ff, 1, "3"
.DATA 1, 2, 3
.BITS 4 DATA %1011, %0100
.ENDBITS
.MACRO flt
.IF \\1 > 64
.REDEFINE _OUT = \\1 - 1
.ELSE
.REDEFINE _OUT = \\1 + 1
.ENDIF
.ENDM
.DBM flt 1, 65, "xy"
.DWM flt 1, 2
.ALIGN 4
.INCBIN "d.bin"
.INCBIN "d.bin" SKIP 2 READ 4 SWAP FSIZE dsz
.DB dsz
.STRINGMAPTABLE script "s.tbl"
.STRINGMAP script "ab c"
.ARRAYDEFINE NAME arr SIZE 4
.ARRAYIN NAME arr INDEX 1 VALUE 10
.ARRAYOUT NAME arr INDEX 1 DEFINITION got
.ARRAYDB NAME arr INDICES 0, 1
.DB got
.FOPEN "d.bin" fp
.FSIZE fp sz
.REPEAT sz INDEX ix
.FREAD fp v
.DB v + ix
.ENDR
.FCLOSE fp
end:
.DB end-start, <end, >end, :end
""")], {"d.bin": bytes([9, 8, 7, 6, 5, 4]).decode("latin1"), "s.tbl": "00=a\n01=b\n0203=c\n04= \n"})

prog("flow", "z80", [("a", "o", MM + """.BANK 0 SLOT 0
.ORG 0
.MACRO add3 ARGS x, y
.IF NARGS == 2
ld a, x + y
.ELSE
ld a, x
.ENDIF
.SHIFT
.DB \\1
.ENDM
.MACRO lab ISOLATED
_l:
jp _l
.ENDM
main:
add3 1, 2
add3 4, 5
lab
lab
.REPEAT 3 INDEX i
.DB i
.IF i == 1
.CONTINUE
.ENDIF
.DB $F0 + i
.ENDR
.DEFINE c = 3
.WHILE c > 0
.DB c
.REDEFINE c = c - 1
.IF c == 1
.BREAK
.ENDIF
.ENDR
.IFDEF NOPE
.FAIL "no"
.ELIF c == 1
.DB "yes"
.ELSE
.FAIL
.ENDIF
.IFEXISTS "inc.s"
.INCLUDE "inc.s"
.ENDIF
.FUNCTION sq(a) a*a+1
.DB sq(3), sq(main)
.ASSERT c == 1
.PRINT "value ", DEC c, " ", HEX c, "\\n"
.PRINTT "text\\n"
.PRINTV DEC c+1
-:
djnz -
jr +
nop
+:
call main
ld hl, main+2
ld (hl), main.w & $7f
@child:
jp @child
.SYM sausage
.BREAKPOINT
""")], {"inc.s": "inc1:\n.DB inc1+1\n.INCLUDE \"inc2.s\"\n", "inc2.s": ".DB \"two\"\n"})

prog("sections", "z80", [("a", "o", MM + """.BANK 0 SLOT 0
.ORG $10
.SECTION "one" FREE
one:
ld hl, two
ld a, :two
.DW three - one, _sizeof_one
_loc:
jr _loc
.ENDS
.SECTION "two" SEMIFREE ALIGN 16 RETURNORG
two:
.DSB 5, 2
@ch:
.DW two@ch, one
.ENDS
.SECTION "three" SUPERFREE PRIORITY 10
three:
.DB bankbyte(three), 3
.ENDS
.SECTION "four" FORCE
four:
.DW four
.ENDS
.BANK 1 SLOT 1
.ORG $40
.SECTION "five" OVERWRITE NAMESPACE "nsp"
five:
.DW five, nsp.five
.ENDS
.SECTION "app" APPENDTO "one"
.DW app2
app2:
.ENDS
.RAMSECTION "ram" BANK 0 SLOT 2 ALIGN 4
v1 DB
v2 DW
v3 DS 4
.ENDS
.RAMSECTION "ramf" BANK 0 SLOT 2 ORGA $C080 FORCE
w1 DB
.ENDS
.SECTION "use" FREE
ld a, (v1)
ld hl, (v2)
ld a, (w1)
.DB RAM_USAGE_SLOT_2_BANK_0_END & 255
.ENDS
""")], lflags=("-r", "-S"))

prog("struct", "z80", [("a", "o", MM + """.STRUCT pt
x DB
y DW
.ENDST
.STRUCT mon
name DS 4
pos INSTANCEOF pt
arr INSTANCEOF pt 2
.UNION
u1 DW
.NEXTU
u2 DB
u3 DB
.ENDU
.ENDST
.ENUM $C000
e1 DB
e2 DW
e3 INSTANCEOF mon 2
.ENDE
.ENUM $80 DESC EXPORT
d1 DB
d2 DW
.ENDE
.RAMSECTION "r" SLOT 2
m1 INSTANCEOF mon
m2 INSTANCEOF pt 3 STARTFROM 0
.ENDS
.BANK 0 SLOT 0
.ORG 0
.DSTRUCT inst INSTANCEOF pt VALUES
x .DB 5
y .DW inst
.ENDST
.DSTRUCT anon, pt, 1, 2
.DW e1, e2, e3, e3.1.pos.y, d1, d2, m1.arr.2.x, m2.0.y, _sizeof_mon, mon.u3, _sizeof_inst
""")])

prog("multi", "z80", [("a", "o", MM + """.BANK 0 SLOT 0
.ORG 0
main:
call sub1
ld hl, const
.DB <sub2, >sub2, :sub2
.DW sub1 + sub2, libf
.SECTION "sa" FREE
sa:
.DW sb
.ENDS
"""), ("b", "o", MM + """.BANK 1 SLOT 1
.ORG 0
sub2:
.DW main
.DEFINE const $1234
.EXPORT const
.SECTION "sb" FREE
sub1:
sb:
.DW sa
ret
.ENDS
"""), ("c", "l", """.SECTION "lib1" FREE
libf:
.DW libg, main
.ENDS
.SECTION "lib2" FREE
libg:
.DB 7
.ENDS
.SECTION "lib3" FREE
unused:
.DB 8
.ENDS
""")], link="[objects]\na.o\nb.o\n[libraries]\nbank 1 slot 1 c.o\n", lflags=("-d", "-r", "-S"))

prog("ns", "z80", [("a", "o", MM + """.BANK 0 SLOT 0
.ORG 0
.INCLUDE "m.s" NAMESPACE "n1"
.INCLUDE "k.s"
g:
.DW n1.f, kk
@a:
.DW @a
@@b:
.DW @@b
.BLOCK "blk"
.DB CADDR & 255
.ENDB
/* comment */
.DB 1 ; tail
""")], {"m.s": "f:\n.DW f\n", "k.s": "kk:\n.DB 3\n"})

prog("snes", "65816", [("a", "o", """.MEMORYMAP
DEFAULTSLOT 0
SLOT 0 $8000 $8000
.ENDME
.ROMBANKSIZE $8000
.ROMBANKS 1
.SNESHEADER
ID "SNES"
NAME "CORPUS"
SLOWROM
LOROM
CARTRIDGETYPE 0
ROMSIZE 8
SRAMSIZE 0
COUNTRY 1
LICENSEECODE 0
VERSION 0
.ENDSNES
.SNESNATIVEVECTOR
NMI main
.ENDNATIVEVECTOR
.SNESEMUVECTOR
RESET main
.ENDEMUVECTOR
.BASE $80
.BANK 0 SLOT 0
.ORG 0
.ACCU 8
.INDEX 16
main:
rep #$30
lda #$1234
ldx #main
sep #$20
lda #$12
lda main.l
jsl main
mvn 1, 2
brl main
.16BIT
lda 5
.8BIT
lda 5
.WDC
sta <5
.NOWDC
""")])

prog("gb", "gb", [("a", "o", """.MEMORYMAP
DEFAULTSLOT 0
SLOTSIZE $4000
SLOT 0 0
SLOT 1 $4000
.ENDME
.ROMBANKSIZE $4000
.ROMBANKS 2
.GBHEADER
NAME "CORPUS"
CARTRIDGETYPE 1
LICENSEECODENEW "HI"
ROMSIZE
RAMSIZE 2
COUNTRYCODE 1
NINTENDOLOGO
VERSION 1
.ENDGB
.BANK 0 SLOT 0
.ORG $150
go:
ldh ($40), a
ld ($FF00+c), a
jp go
swap a
""")])

prog("c64", "6502", [("a", "o", """.MEMORYMAP
DEFAULTSLOT 0
SLOT 0 $801 $100
SLOT 1 0 $100
.ENDME
.ROMBANKSIZE $100
.ROMBANKS 1
.ENUM $10
zp DB
.ENDE
.BANK 0 SLOT 0
.ORG 0
go:
lda #<go
ldx #>go
sta zp
sta zp,x
lda (zp),y
jmp (go)
bne go
.BYT "x"
""")], lflags=("-b", "-t", "CBMPRG", "-a", "go"))

prog("md", "68000", [("a", "o", """.MEMORYMAP
DEFAULTSLOT 0
SLOT 0 0 $1000
.ENDME
.ROMBANKSIZE $1000
.ROMBANKS 1
.SMDHEADER
TITLEDOMESTIC "CORPUS"
.ENDSMD
.BANK 0 SLOT 0
.ORG $200
go:
move.w #1, d0
move.l (go).l, a0
lea (go,pc), a1
bra go
movem.l d0-d7/a0-a6, -(sp)
.DW 1, go
""")])

def small(name, cpu, code):
    prog(name, cpu, [("a", "o", MM + ".BANK 0 SLOT 0\n.ORG 0\ngo:\n" + code)])
small("m6809", "6809", "lda #1\nldx,x++\nlbra go\npshs a,b,x\n.DW go\n")
small("m6800", "6800", "ldaa #1\nbra go\njmp go\n")
small("m6801", "6801", "ldd #go\nmul\n")
small("huc", "huc6280", "tii go, go, 4\ncsh\nlda #<go\nbbr0 5, go\n")
small("spc", "spc700", "mov a, #1\nmov !$1234, a\nbra go\ncall !go\n")
small("gsu", "superfx", "ibt r1, #5\niwt r2, #go\nbra go\nnop\n")
small("i8008", "8008", "jmp go\nlai 5\n")
small("i8080", "8080", "lxi h, go\njmp go\nmvi a, 5\n")
small("c65c02", "65c02", "stz 5\nbbr0 5, go\nbra go\n")
small("c65ce02", "65ce02", "ldz #5\nbne go\nbne.w go\n")
small("z80n", "z80n", "nextreg 5, 6\npush go\nmul d, e\n")

def files(p, lead=""):
    f = {n: (t if isinstance(t, (bytes, bytearray)) else t.encode("latin1")) for n, t in p["files"].items()}
    for u, k, s in p["units"]: f[u + ".s"] = s.encode("latin1")
    f["l"] = (p["link"] or "[objects]\n" + "".join(u + ".o\n" for u, k, s in p["units"])).encode()
    return f

def steps(p, aflags=(), lflags=(), out="o.bin"):
    st = [(p["cpu"], list(aflags) + ["-" + k, u + ".o", u + ".s"]) for u, k, s in p["units"]]
    st.append(("wlalink", list(lflags) + p["lflags"] + ["l", out]))
    return st

def run(p, aflags=(), lflags=(), **kw):
    return dict(files=files(p), steps=steps(p, aflags, lflags), reads=[u + ".o" for u, k, s in p["units"]] + ["o.bin", "o.sym"], **kw)
CPUS = sorted({p["cpu"] for p in P.values()})
