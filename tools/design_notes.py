"""The hand-written part of each property's entry in DESIGN.md (tools/mkdesign.py puts them together)."""
NOTES = {
"E01": dict(
 oracle="reference encodings written from the published instruction sets (`spec/<cpu>.forms`; `mc/model/m68k.py` encodes the 68000), with operand ranges; undocumented opcodes only where the documentation lists them.",
 why="there are about 10,000 forms in 16 tables and the matcher takes the first table row that fits; the repository's tests have a few hundred of them with one value each, in one letter case.",
 **{"not": "which of two equally long equivalent encodings the assembler picks is fixed by the reference only where the documentation fixes it. Listed finding: the 68000's `MOVE.W #n,Dn` assembled as MOVEQ (see Known findings)."}),
"E02": dict(
 oracle="the assembler's own encoding of the literal (decided by E01): the ROM with the reference must be the ROM with the number; values out of the operand's range must be refused with an error.",
 why="each operand kind is written by a different piece of the linker (8, 13, 16, 24, 32 bit, relative 8/11/16, nibble, high/low byte, base-relative, ...), and overflow checks matter at single values, at a distance that ordinary programs never have.",
 **{"not": "the addressing size chosen when an operand isn't known yet (documented as the assembler's choice unless hinted; E03 decides hints). Listed finding: 68000 distances given by imported definitions."}),
"E03": dict(
 oracle="a state machine written from the documentation: accumulator and index size as set by .8BIT/.16BIT/.24BIT, .ACCU/.INDEX, REP/SEP, operand hints (.b/.w/.l) and number hints, which hint wins, and when they end.",
 why="the state is global and survives conditionals, sections, macros, includes; a fault needs a certain order of three or four operations to show, the tests have each alone."),
"F01": dict(
 oracle="an interpreter that expands the program into plain bytes, written from the documentation of .MACRO, .REPT, .WHILE, .IF and their arguments, `NARGS`, `\\@`, `\\!`, `?1`..., SHIFT, INDEX.",
 why="nesting: stacks of active macros, repeats and conditionals interleave, and each of the ways to leave one (.ENDM, .BREAK, .CONTINUE, the end of a file) has to restore the others.",
 **{"not": "nested macro definitions that come out of macros; `.WHILE` without an end (R03 cuts it); a macro call with the argument list's parenthesis glued to a name that is also a function."}),
"F02": dict(
 oracle="a table name -> value that each operation updates, and the documented conditions under which an operation is refused; for the hash map, a Python dictionary.",
 why="values are kept in a hash map with linear probing and tombstones, and in parallel tables for strings, labels and exported names; a fault needs collisions after removals, or a redefinition between two uses.",
 **{"not": "Listed finding: a definition whose name is, later in the source, also a label."}),
"L01": dict(
 oracle="a layout calculator from the documentation (sizes, offsets, unions, nested structures, COUNT, SIZE, STARTFROM, KEEPEMPTY, dotted names, `_sizeof_` labels, padding labels).",
 why="offset, size and name are computed by four different parsers of the same member list, which only agree if every kind of member works at every place and nesting; tests have a few lists.",
 **{"not": "nameless arrays in .DSTRUCT."}),
"L02": dict(
 oracle="a first-fit allocator in the documented order (kind, PRIORITY, size, order of definition), with windows, alignment, offsets, bit windows and obstacles; independent of it: no two bytes of the ROM may belong to two sections, each section must be at an allowed place, and a refusal is only allowed if the model finds no place either.",
 why="placement is a search over histories of earlier placements; an off-by-one in a boundary shows only in a nearly full bank.",
 **{"not": "the order of sections of equal priority, size and kind is taken from the object's order (documented as the order of definition)."}),
"L03": dict(
 oracle="as L02, for RAM banks: slot windows, ALIGN/OFFSET, FREE/FORCE/SEMIFREE/SEMISUBFREE/ORGA, and no overlap inside a slot and bank.",
 why="as L02; and RAM sections have a second implementation of everything L02 has."),
"L04": dict(
 oracle="reachability in the reference graph: roots are code outside sections, KEEP, FORCE/OVERWRITE-like kinds and keep lists of the link file; an edge is any reference of any kind; a section is kept if and only if it is reachable.",
 why="reachability is a property of all graphs; the tests have two or three. A missed edge kind loses code silently."),
"L05": dict(
 oracle="a resolver written from the documentation: namespaces, sections, child labels (@, @@), local labels (_x), unnamed labels (-, --, +, ++, __), macro isolation; what may not be seen must be refused.",
 why="the choice is made in two programs (names are mangled in the assembler, chosen in the linker) and depends on the whole arrangement of scopes around the reference.",
 **{"not": "parent-less `@c` in an isolated macro used twice. Listed findings: references across namespaces with a namespaced object file (nsforward, nsobject)."}),
"L06": dict(
 oracle="the one-file program: the same items in the same order in several objects and libraries must give the same ROM and the same label addresses; duplicates, conflicts and missing names must be refused.",
 why="the state of the linker after reading several files must be that after one, for all ways to cut; tests cut a program in one way.",
 **{"not": "appending with equal priority and size (order undocumented), appending to a namespaced section, one label at one address in two files. Libraries can't set .EMPTYFILL, so programs that use it use 0."}),
"L07": dict(
 oracle="a layout model that measures the distance from each label to the next one of the same or higher level, section sizes and ends, and RAM usage per bank and slot.",
 why="sizes depend on what comes next, which may be a section the linker places somewhere else, dropped code, or a macro's label."),
"X01": dict(
 oracle="a calculator from the documentation (precedence, 32-bit and floating results, functions, literal forms) that doesn't use the repository's code.",
 why="precedence and bracketing are a property of all expression trees; an error in one pair of neighbouring operators shows only in that pair.",
 **{"not": "stacked prefix operators (`<>a`, `!!a`): the documentation doesn't say what they mean."}),
"X02": dict(
 oracle="X01's calculator, and the assembler's result for the same calculation with numbers.",
 why="the linker has its own evaluator over a stack that has been written to a file; anything that goes wrong in the serialisation of one item kind or in one operator's evaluation changes the ROM silently."),
"X03": dict(
 oracle="an interpreter of the conditional directives that keeps a stack of decisions.",
 why="nesting and chains: skipping must count openers of 15 kinds, also in text that is not assembled; the tests nest two deep."),
"D01": dict(
 oracle="each directive's documented bytes: byte order, width, escapes in strings, tables row by row, series (.DBSIN...), random numbers' ranges and their repetition with the same seed.",
 why="every directive has its own loop and its own limits.",
 ),
"D02": dict(
 oracle="a list of bits; the ROM's bytes are the list's, left to right, padded with zeros at the end.",
 why="a bit stream item may start at any of 8 offsets, span up to 5 bytes and be finished in another program; the tests have two streams."),
"D03": dict(
 oracle="dictionaries: a table maps the longest (string maps) or single (tables) text, later definitions win; arrays are lists.",
 why="translation is greedy over overlapping entries and the entries' order matters; a fault needs overlapping entries."),
"D04": dict(
 oracle="slices of the file's bytes and a cursor on them; ranges outside the file must be refused.",
 why="off-by-one at the end of the file, negative lengths, end-of-file tests after the last byte."),
"O01": dict(
 oracle="the console documentation: field positions, complement and checksum algorithms (with the documented exclusion of the checksum's own bytes), size codes, mirroring of ROMs that aren't a power of two, logo.",
 why="the checksum must be that of the finished ROM, of every size, whatever else is written to it after; the tests compare a few ROMs with ones the assembler itself made."),
"O02": dict(
 oracle="markers: each line's bytes hold a number that no other line has, so the true address of everything can be read off the ROM.",
 why="a symbol file is derived data; nothing reads it in the tests, beyond comparing it with a stored one.",
 **{"not": "addresses of code outside sections aren't in the address-to-line table (the documentation promises it for sections); the bank of symbols and breakpoints under .BASE outside the SNES."}),
"O03": dict(
 oracle="a byte array with the documented order of background, header, bank headers, ROM, footer and the cut of the output mode.",
 why="every combination of start and end matters, with ends that fall next to each other."),
"O04": dict(
 oracle="as O02; the list file must have each source line, in order, and the bytes the line made.",
 why="the linker writes list files from records made by the assembler; lines without code, with much code, of files included many times are each a case.",
 **{"not": "at which of the repeated lines the bytes of a macro or repetition are shown; CR line ends; the header's date; two statements on a line."}),
"R01": dict(
 oracle="the plain run of the same program (byte identity).",
 why="the property is about what must *not* matter; each variation, pair and left-over is a run that the tests never make; uninitialised memory is found by filling it with two patterns.",
 **{"not": "the SDSC tag and list files embed the date (documented); the option that writes it is excluded."}),
"R02": dict(
 oracle="exit code and message, or the files of the fault-free run.",
 why="tests never fail a write; every one of the operations is a place where a file can be left cut behind a success."),
"R03": dict(
 oracle="sanitizer-clean runs that end with success or with exit code 1, a message with a file and line, and no object file.",
 why="malformed programs are endless; cuts and replacements at every place reach each parser state with each kind of unexpected input.",
 **{"not": "endless .WHILE (only its cuts are run); .FAIL without a message, which is silent by design."}),
"R04": dict(
 oracle="sanitizer-clean runs that end with success or with exit code 1 and a message; a file that was cut must be refused, unless what is left is a whole file.",
 why="an object file is a chain of 30 kinds of records; cutting it at each byte is each crash point of the assembler that wrote it.",
 **{"not": "objects whose fields have been changed to other values (other than lengths and kinds): they are trusted; a cut exactly behind a data block that nothing refers to."}),
"T01": dict(
 oracle="the input file itself: assembling what wlab prints must give it back.",
 why="line splitting, addresses and option combinations at every length; the tests convert one file."),
"T02": dict(
 oracle="the documented search order; the text with included files' text pasted in; the set of files that have been read.",
 why="which of several files of one name is taken depends on five settings together.",
 **{"not": ".INCLUDE without ONCE inside a macro or loop body, which inserts one more copy per round (a test of the repository requires it); macros defined inside a macro through includes."}),
"T03": dict(
 oracle="the ROM and labels of the unchanged program; for errors, the line number of the changed text.",
 why="lexing decisions happen character by character; every rewrite at every place is a different input.",
 **{"not": "a space in front of a comma; the 6809's `,X++` with inner spaces."}),
}
