"""Feature fragments: each is a few lines that can stand anywhere in plain code of bank 0 (HEAD first), alone or next to any other; QQ is replaced by
a suffix that makes names unique.  FILES are the files they read."""
HEAD = """.MEMORYMAP
DEFAULTSLOT 0
SLOT 0 0 $400
SLOT 1 $400 $400
SLOT 2 $C000 $400
.ENDME
.ROMBANKSIZE $400
.ROMBANKS 2
.EMPTYFILL $E5
.BANK 0 SLOT 0
.ORG 0
"""
FILES = {"d.bin": bytes([9, 8, 7, 6, 5, 4]), "s.tbl": b"00=a\n01=b\n0203=c\n04= \n", "one.s": b".DB $11\n", "lab.s": b"inl: .DW inl\n.DB $22, 3\n", "two.s": b'.DB 1\n.INCLUDE "one.s"\n.DB 2\n'}

F = {
"db": ".DB 1, $22, %1010, 'c', \"text\", -1\n",
"dw": ".DW 1000, $1234, -2\n",
"dl": ".DL $102030\n.DD $11223344\n",
"dsb": ".DSB 3, $AA\n.DSW 2, $1234\n.DS 2, 7\n",
"label": "lQQ:\n.DW lQQ, lQQ+1\n",
"child": "pQQ:\n@c:\n.DW @c\n@@d:\n.DW @@d, pQQ@c@d\n",
"local": "_lQQ:\n.DW _lQQ\n",
"unnamed": "-:\n.DW -, +\n+:\n.DB 1\n",
"far": ".DW endQQ, endQQ - 1\n.DB <endQQ, >endQQ, :endQQ\nendQQ:\n",
"code": "iQQ:\nld a, 5\nld hl, iQQ\njp iQQ\njr iQQ\nset 3, (ix+4)\n",
"fwd": "ld hl, fQQ\njr fQQ\nnop\nfQQ:\nret\n",
"def": ".DEFINE kQQ 5\n.DB kQQ, kQQ * 2 + 1\n.REDEFINE kQQ = kQQ + 1\n.DB kQQ\n",
"defl": "dlQQ:\n.DEFINE klQQ = dlQQ + 2\n.DW klQQ\n",
"defs": ".DEFINE sQQ \"abc\"\n.DB sQQ\n.UNDEFINE sQQ\n",
"equ": ".EQU eQQ $12\n.DB eQQ\n",
"macro": ".MACRO mQQ ARGS x, y\n.DB x, y, NARGS\n.ENDM\n mQQ 1, 2\n mQQ 3, 4\n",
"macpos": ".MACRO nQQ\n.DB \\1\n.IF NARGS > 1\n.SHIFT\n.DB \\1\n.ENDIF\n.ENDM\n nQQ 1\n nQQ 3, 4\n",
"maclab": ".MACRO oQQ ISOLATED\n_m:\n.DW _m\n.ENDM\n oQQ\n oQQ\n",
"macat": ".MACRO qQQ\nlab_qQQ\\@:\n.DW lab_qQQ\\@\n.ENDM\n qQQ\n qQQ\n",
"rept": ".REPEAT 3 INDEX ixQQ\n.DB ixQQ\n.ENDR\n",
"rept2": ".REPT 2\n.DB 1\n.REPT 2\n.DB 2\n.ENDR\n.ENDR\n",
"while": ".DEFINE wQQ = 3\n.WHILE wQQ > 0\n.DB wQQ\n.REDEFINE wQQ = wQQ - 1\n.ENDR\n",
"if": ".IF 1 == 1\n.DB 1\n.ELSE\n.DB 2\n.ENDIF\n",
"ifn": ".IF 1 == 2\n.DB 1\n.ELIF 3 > 2\n.DB 3\n.ELSE\n.DB 2\n.ENDIF\n",
"ifdef": ".IFDEF nopeQQ\n.DB 1\n.ENDIF\n.IFNDEF nopeQQ\n.DB 2\n.ENDIF\n",
"include": ".INCLUDE \"one.s\"\n.DB $33\n",
"include2": ".INCLUDE \"two.s\"\n",
"incns": ".INCLUDE \"lab.s\" NAMESPACE \"nsQQ\"\n.DW nsQQ.inl\n",
"incbin": ".INCBIN \"d.bin\" SKIP 1 READ 4 SWAP FSIZE szQQ\n.DB szQQ\n",
"section": ".SECTION \"sQQ\" FREE\nslQQ:\n.DW slQQ\n@k:\n.DW @k\n.ENDS\n.DW slQQ\n",
"secforce": ".SECTION \"fQQ\" FORCE\nsfQQ:\n.DW sfQQ\n.ENDS\n.DB 9\n",
"secsuper": ".SECTION \"uQQ\" SUPERFREE ALIGN 4\nsuQQ:\n.DB :suQQ, 1\n.ENDS\n",
"secprio": ".SECTION \"vQQ\" SEMIFREE PRIORITY 3 RETURNORG\nsvQQ: .DB 1,2,3\n.ENDS\n.SECTION \"wQQ\" APPENDTO \"vQQ\"\nswQQ: .DW swQQ\n.ENDS\n",
"ram": ".RAMSECTION \"rQQ\" BANK 0 SLOT 2\nr1QQ DB\nr2QQ DW\n.ENDS\n.DW r2QQ\n",
"ramstruct": ".STRUCT tQQ\nx DB\ny DW\n.ENDST\n.RAMSECTION \"rsQQ\" BANK 0 SLOT 2 ALIGN 2\nrtQQ INSTANCEOF tQQ 2\n.ENDS\n.DW rtQQ.2.y\n",
"dstruct": ".STRUCT yQQ\nx DB\ny DW\n.ENDST\n.DSTRUCT iyQQ INSTANCEOF yQQ VALUES\nx .DB 5\ny .DW iyQQ\n.ENDST\n",
"enum": ".ENUM $C000\neaQQ DB\nebQQ DW\n.ENDE\n.DW eaQQ, ebQQ\n",
"bits": ".BITS 4 DATA %1011, %0100\n.BITS 3 DATA 5\n.ENDBITS\n",
"table": ".TABLE byte, word\n.ROW 1, 2\n.DATA 3, 4\n",
"asc": ".ASCIITABLE\nMAP \"A\" TO \"C\" = 1\n.ENDA\n.ASC \"ABC\"\n",
"dbsin": ".DBSIN 0.2, 4, 3.2, 120, 1.3\n.DBM dmQQ 1, 2\n.MACRO dmQQ\n.REDEFINE _OUT = \\1\n.ENDM\n",
"dbm": ".MACRO dnQQ\n.REDEFINE _OUT = \\1 + 1\n.ENDM\n.DBM dnQQ 1, 2\n.DWM dnQQ 1, 2\n",
"rnd": ".SEED 5\n.DBRND 4, 0, 10\n",
"strmap": ".STRINGMAPTABLE smQQ \"s.tbl\"\n.STRINGMAP smQQ \"ab c\"\n",
"array": ".ARRAYDEFINE NAME arQQ SIZE 4\n.ARRAYIN NAME arQQ INDEX 1 VALUE 10\n.ARRAYDB NAME arQQ INDICES 0, 1\n",
"func": ".FUNCTION fnQQ(a) a*a+1\n.DB fnQQ(3)\n",
"hex": ".HEX \"a0A0ffDE\"\n",
"align": ".DB 1\n.ALIGN 8\n.DB 2\n",
"org": ".DSB 3, 4\n.DB 5\n",
"bank": ".BANK 1 SLOT 1\n.ORG $10 + QQ*$20\nbkQQ:\n.DW bkQQ\n.DB bank(bkQQ)\n.BANK 0 SLOT 0\n.ORG $200 + QQ*$40\n",
"block": ".BLOCK \"bQQ\"\n.DB 1, 2\n.ENDB\n",
"sizeof": "zQQ:\n.DSB 3, 1\nz2QQ:\n.DB _sizeof_zQQ\n",
"export": ".DEFINE xpQQ 7\n.EXPORT xpQQ\n.DB xpQQ\n",
"print": ".PRINT \"value \", DEC 5, \"\\n\"\n.PRINTT \"t\\n\"\n.ASSERT 1 == 1\n",
"sym": ".SYM symQQ\n.BREAKPOINT\n.DB 1\n",
"caddr": ".DW CADDR, CADDR\n",
"fopen": ".FOPEN \"d.bin\" fpQQ\n.FREAD fpQQ fvQQ\n.DB fvQQ\n.FCLOSE fpQQ\n",
"enumid": ".ENUMID 0\n.ENUMID idQQ\n.ENUMID jdQQ\n.DB jdQQ\n",
"stringjoin": "tojoin1:\n.DB 1\n",
"comment": "; c\n.DB 1 ; x\n/* a\n b */ .DB 2\n* star\n",
}
del F["stringjoin"]
F["dbsin"] = ".DBSIN 0.2, 4, 3.2, 120, 1.3\n.DWCOS 0.2, 2, 3.2, 120, 1.3\n"

def source(names):
    """a program of these fragments, in this order"""
    return HEAD + "".join(F[n].replace("QQ", str(i)) for i, n in enumerate(names))

def world(names, aflags=(), lflags=("-r",), reads=("a.o", "o.bin", "o.sym")):
    f = dict(FILES); f["a.s"] = source(names); f["l"] = "[objects]\na.o\n"
    return {"files": f, "steps": [("z80", list(aflags) + ["-o", "a.o", "a.s"]), ("wlalink", list(lflags) + ["l", "o.bin"])], "reads": list(reads)}
