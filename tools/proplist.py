TODO = "Its check is still being built."
ENUM = "bounded exhaustive enumeration of programs, replayed on the tools against a reference model"

prop("E01", "Every instruction assembles to its architecture's encoding",
 "For each of the 16 processors, every supported mnemonic and operand form assembles to exactly the opcode and operand bytes its instruction set defines, with the operand in the right place, width, byte order and sign. Operand values that fit are stored unchanged; values that do not fit the operand are refused with an error instead of being truncated.",
 ["inputs", "programs"], "All instruction forms of all 16 processors, with operand values at every boundary of the operand width, in either letter case.",
 "There are about 11,000 instruction forms; the tests assemble a sample of them with one operand value each and never the values around the limits.",
 ["decode.c", "instruction_table_generator/main.c", "igb.c", "iz80.c", "i65816.c", "i68000.c", "i6809.c", "ispc700.c", "isuperfx.c"],
 [("instruction tables and table-driven matcher", "decode.c:evaluate_token"), ("operand emission", "phase_4.c")], ["linked ROM bytes", "exit code"],
 technique=ENUM,
 note=NB + 'About 219,000 instructions per quick run; spec/*.forms holds one line per form, cross-checked by the independent opcode maps in tools/audit_*.py; the 68000 and 6809 indexed modes come from encoders in mc/model.')
prop("E02", "Operands resolved at link time are encoded like literal operands",
 "An instruction or data item whose operand is a label or an expression only the linker can resolve gets exactly the bytes it would have had if the final value had been written as a literal. Relative branches encode target minus the address after the branch, and a value or distance that does not fit the width of its operand makes the link fail instead of being truncated.",
 ["programs", "configurations"], "All operand kinds (8/9/13/16/24/32-bit, relative, bank, high/low byte) of every processor, over label addresses and distances around every limit.",
 "The tests link a few references with small distances; the limits of each reference kind on each processor are never reached from both sides.",
 ["wlalink/write.c", "wlalink/memory.c", "phase_4.c"], [("reference fixing", "wlalink/write.c:fix_references"), ("pending calculations", "wlalink/write.c:compute_pending_calculations")],
 ["linked ROM bytes", "exit code"], technique=ENUM,
 note=NB + "Every instruction form with an operand is generated from the checked-in form tables with a link-time operand of each kind, assembled and linked by the real tools, and every cell of the ROM is compared with the literal's encoding; every value outside the width must be refused.")
prop("E03", "Operand sizes follow the declared widths and hints",
 "On the 65816 the size of each operand follows from an explicit size hint if there is one, otherwise from the accumulator and index widths established by the latest width directive or REP/SEP instruction, and otherwise from the value and the address size set by .8BIT, .16BIT or .24BIT (which the other 6502 and 6800 family processors have too). Any sequence of these directives and instructions leads to the same widths, and so to the same bytes, as the documented state machine.",
 ["histories"], "All sequences up to a depth over width directives, REP/SEP, hinted and unhinted instructions.",
 "The widths are hidden state carried from line to line: what an instruction assembles to depends on the whole history, and the tests contain a handful of histories.",
 ["phase_1.c", "decode.c"], [("width state", "phase_1.c (.ACCU/.INDEX/.8BIT/.16BIT/.24BIT)"), ("REP/SEP tracking", "decode.c")], ["linked ROM bytes"], technique=ENUM,
 note=NB + 'The assembler plays every bounded history of width operations (directives, REP/SEP, macros, repeats, conditionals, hints); after each the bytes of rotating probe instructions are compared with a state machine of accumulator, index and address width.')
prop("X01", "Calculations in the assembler equal the documented arithmetic",
 "Every calculation the assembler can finish by itself yields the value the documented operators, precedences, unary prefixes, number formats, built-in functions and user functions define, computed with real numbers and truncated to an integer only at the end. Spacing and redundant parentheses do not change it, and a division or modulo by zero is refused.",
 ["inputs", "programs"], "All expressions with up to four operands over eleven binary operators, all bracketings, unary prefixes, number formats, and all functions over argument grids.",
 "Precedence and sign handling are a hand-written shunting-yard with special cases for neighbouring tokens; tests try a few dozen expressions out of the tens of thousands of short ones.",
 ["stack.c", "parse.c"], [("infix to postfix conversion", "stack.c:stack_calculate"), ("evaluation", "stack.c:compute_stack"), ("functions", "parse.c:parse_function")],
 ["bytes in the ROM", "exit code"], technique=ENUM,
 note=NB + "About 33,000 expressions (quick) per run, each evaluated by the assembler and by an independent parser and evaluator; results outside 32 bits are not judged.")
prop("X02", "The linker computes what the assembler would have computed",
 "A calculation left to the linker because it uses labels or definitions from elsewhere gives the same result as the same calculation with the values written out. This holds for every operator and function, through chains of definitions, in every data and instruction width.",
 ["programs"], "The expressions of X01 with operands turned into imported definitions or labels, and definition chains in every order.",
 "The linker has its own second implementation of the whole calculator; the tests compare the two on very few expressions.",
 ["wlalink/write.c", "stack.c", "phase_4.c", "wlalink/parse.c"], [("linker evaluation", "wlalink/write.c:compute_stack"), ("serialisation of calculations", "phase_4.c")],
 ["bytes in the ROM", "exit code"], technique=ENUM,
 note=NB + 'About 32,000 expressions and 700 definition chains per quick run, evaluated by the linker and by an independent evaluator; labels in differing banks and slots included.')
prop("X03", "Conditional assembly keeps exactly the branch whose condition holds",
 "Of every chain of .IF, .ELIF and .ELSE blocks (and the .IFDEF, .IFNDEF, .IFEQ, .IFNEQ, .IFGR, .IFLE, .IFDEFM and .IFEXISTS forms), arbitrarily nested, exactly the first block whose condition is true is assembled and the others leave no trace. Conditions evaluate numbers, comparisons, strings and logical operators as documented, and unbalanced blocks are refused.",
 ["programs"], "All nestings of conditional blocks up to a depth with all truth assignments, and all condition expressions of up to three operands.",
 "Skipping a block means scanning text for nested keywords; tests contain few nestings and not all truth assignments.",
 ["phase_1.c", "stack.c"], [("block skipping", "phase_1.c:find_next_point"), ("conditions", "stack.c:compute_stack")], ["bytes in the ROM", "exit code"], technique=ENUM,
 note=NB + 'About 38,000 chains, conditions and directive sequences per quick run, assembled and compared with a model of the documented meaning.')
prop("D01", "Data directives emit exactly the bytes they describe",
 "Every data-defining directive (bytes, words, longs, doublewords, blocks, hex strings, text with escapes, tables, rows, sine/cosine and random series) emits exactly the described number of bytes with the described values in the byte order of the processor. Values that do not fit the element are refused.",
 ["inputs", "programs"], "All directives over value grids around the element limits, both byte orders, string escapes, and bounded table/row/data sequences.",
 "Tests give each directive a few ordinary values; the range limits, byte orders and all escape sequences are untested combinations.",
 ["phase_1.c", "phase_4.c", "wlalink/write.c"], [("data directives", "phase_1.c"), ("emission", "phase_4.c")], ["bytes in the ROM", "exit code"], technique=ENUM,
 note=NB + 'the series oracle recomputes sines, random numbers (MT19937) and filters independently; element values come from a boundary grid')
prop("D02", "Bit streams are packed without gaps, loss or overlap",
 "Any sequence of .BITS items packs the given values, most significant bit first, into consecutive bits, and the end of a stream pads the last byte with zeros. Every item's value can be read back from its own bit range, whether the value was known at once or only to the linker.",
 ["histories"], "All sequences of items up to a length over widths and values, with and without padding and link-time values.",
 "The packer keeps a bit position across directives; the tests contain two or three sequences.",
 ["phase_1.c", "phase_4.c", "wlalink/memory.c"], [("bit packing", "phase_4.c"), ("link-time bits", "wlalink/memory.c:mem_insert_bits")], ["bytes in the ROM"], technique=ENUM,
 note=NB + 'about 58,000 streams per quick run; only streams closed with .ENDBITS are judged, as the documentation asks for')
prop("D03", "Character tables and string maps translate text as declared",
 "After .ASCIITABLE (or .ASCTABLE) every character of .ASC text and asc() maps to the declared value and all others map to themselves; after .STRINGMAPTABLE, .STRINGMAP text is replaced by the values of the longest matching entries and unmatched text is refused. Arrays return what was last written to each index.",
 ["inputs", "histories"], "All tables of up to three mappings over overlapping ranges, all short texts over small alphabets, and all array operation sequences up to a depth.",
 "Overlapping ranges and greedy matching have many small cases that example tests do not enumerate.",
 ["phase_1.c"], [("tables", "phase_1.c:directive_asciitable"), ("string maps", "phase_1.c:directive_stringmap"), ("arrays", "phase_1.c")], ["bytes in the ROM", "exit code"], technique=ENUM,
 note=NB + 'the greedy longest match and the table semantics are recomputed by dictionaries; table lines longer than 255 characters are not covered')
prop("D04", "Included binary data and file reads return the file's exact bytes",
 "Including a binary file yields exactly the selected byte range (after SKIP, READ, SWAP and the optional filter), and any sequence of file open, read, seek, tell and close operations behaves like a cursor on that file. Ranges outside the file are refused.",
 ["histories", "inputs"], "All SKIP/READ/SWAP combinations on files of 0 to 6 bytes and all file-operation sequences up to a depth.",
 "Tests use one or two files in the middle of the range; edges (empty file, skip to the end, negative read counts, odd sizes) are not covered.",
 ["include_file.c", "phase_1.c"], [("binary include", "include.c:incbin_file"), ("file directives", "phase_1.c:directive_fopen_fread")], ["bytes in the ROM", "exit code"], technique=ENUM,
 note=NB + 'ranges that are empty (SKIP to the very end) may be refused or give nothing')
prop("F01", "Macros and repetition equal their textual expansion",
 "A program using macros (positional and named arguments, NARGS, shift, counters, recursion), .REPT/.REPEAT and .WHILE produces the same output as the program in which every expansion is written out by hand. Nesting them inside each other or inside conditionals does not change this.",
 ["programs"], "All programs built from macro calls, repeats, whiles and conditionals up to a nesting depth, with all argument counts and kinds.",
 "Expansion manipulates the input buffer and stacks in place; combinations of constructs are where state leaks, and tests have one combination each.",
 ["phase_1.c", "parse.c"], [("macro runtime stack", "phase_1.c:macro_start"), ("repeats", "phase_1.c:directive_rept_repeat")], ["bytes in the ROM", "exit code"], technique=ENUM,
 note=NB + 'Runs of the assembler on every nesting of macros, repeats, whiles and conditionals are compared with an interpreter that expands them. A .REPEAT or .WHILE that is still open at the end of the source is not judged: the assembler accepts it and an existing test (z80/caddr_test) relies on that.')
prop("F02", "Definitions always have the value of the latest definition operation",
 "After any history of define, redefine and undefine operations, including command-line definitions and redefinition from their own value, a name has exactly the value last given to it, and it exists exactly when the history says so. Illegal steps (defining twice, redefining nothing where refused) end the assembly with an error.",
 ["histories"], "All operation sequences up to a depth over two names, with number, string and label values.",
 "A history-dependent table; tests define a few names once.",
 ["phase_1.c", "hashmap.c", "main.c"], [("definitions", "phase_1.c:add_a_new_definition"), ("hash map", "hashmap.c")], ["bytes in the ROM", "exit code"], technique=ENUM,
 note=NB + "A driver linked with the repository's hash map explores all operation histories of that table too. Definitions in terms of themselves must be refused, not crash. Not judged: \\1 given as a label and made a string definition inside the macro (refused by the assembler).")
prop("L01", "Structures, enumerations and RAM sections lay out members as declared",
 "Members of structures, enumerations and RAM section variables get consecutive offsets equal to the sum of the preceding sizes, with nested and repeated structures, unions, alignment, and descending order as declared. Size definitions, member offsets and initialised instances all agree with this layout.",
 ["programs"], "All declarations up to a number of members over member kinds, counts, unions and nesting.",
 "The layout code is shared by four features with options; tests print a few layouts.",
 ["phase_1.c"], [("structure parsing", "phase_1.c:directive_struct"), ("enumerations", "phase_1.c:directive_enum_ramsection")], ["bytes in the ROM", "symbol file"], technique=ENUM,
 note=NB + 'about 95,000 programs per quick run: every list of up to 3 of 24 kinds of members is declared as a structure, an ascending and a descending enumeration, a RAM section, instances and initialised instances; values and sizes of all names, paddings, symbol file labels and bytes are compared with a layout computed from the documentation')
prop("L02", "ROM sections are placed where their kind allows and never overlap",
 "Every kept section that is not empty lands entirely inside the ROM area its kind, bank, slot and window allow, at an address satisfying its alignment and offset, and sections never take each other's bytes (OVERWRITE sections, and FORCE sections over plain code, excepted). Sections are placed kind by kind in the write order, then in order of priority and then size, each at the first place that fits. If one does not fit, or its options are impossible, the tools fail.",
 ["configurations", "programs"], "All sets of up to four sections over kinds, sizes, alignments, offsets, priorities, windows, banks and orders.",
 "Placement is a greedy packing whose interesting cases need several sections nearly filling a bank; tests use roomy banks.",
 ["wlalink/write.c", "wlalink/memory.c"], [("section placement", "wlalink/write.c:insert_sections"), ("ordering", "wlalink/write.c:sort_sections")], ["linked ROM bytes", "symbol file", "exit code"], technique=ENUM,
 note=NB + 'about 110,000 section sets per quick run; whole bank images and symbol addresses are compared with a first-fit model. Alignment counts from the start of the ROM bank; equal priority and size may go in either order')
prop("L03", "RAM sections are placed inside their slots and banks without overlap",
 "Every kept RAM section lands inside the slot and bank its kind allows, at an address satisfying its alignment, offset and priority, and two RAM sections of the same slot and bank never share an address. If one does not fit the link fails.",
 ["configurations", "programs"], "All sets of up to four RAM sections over kinds, sizes, alignments, slots, banks and priorities.",
 "Packing bugs only show when slots are nearly full or alignments interact; tests place a few variables in large slots.",
 ["wlalink/write.c"], [("RAM section placement", "wlalink/write.c:insert_ram_sections")], ["symbol file", "exit code"], technique=ENUM,
 note=NB + 'about 34,000 sets of RAM sections per quick run; equal priority and size may go in either order')
prop("L04", "Discarding removes exactly the unreachable sections",
 "With section discarding on, a section is removed exactly when nothing kept refers to it, directly or through other sections, definitions or calculations, and it is not marked to be kept. (Sections that only their own reference cycle refers to may be kept.) Kept sections and all references are the same as without discarding apart from their addresses, and discarding off removes nothing.",
 ["programs", "configurations"], "All reference graphs over up to four sections with every choice of reference kind, keep flag and library origin.",
 "Reachability has exponentially many graphs (cycles, chains through calculations); tests have three.",
 ["wlalink/discard.c"], [("reachability", "wlalink/discard.c")], ["linked ROM bytes", "symbol file"], technique=ENUM,
 note=NB + 'about 20,700 programs per quick run: all reference graphs over plain code and 3 sections, and over 4 with few roots, all pairs of 18 kinds of references and of 16 kinds of sections, distributions over objects and libraries, definitions, appended and RAM sections; which sections are kept is compared with graph reachability, and the kept code, labels and references are checked in the ROM and symbol file')
prop("L05", "Every label reference resolves to the label its scope selects",
 "Global, child, local, macro-local, namespaced and unnamed labels resolve to the definition that their documented scope selects from the point of reference, independent of what other scopes define under the same spelling. References with no visible definition and duplicate definitions in one scope are refused.",
 ["programs"], "All short sequences of label definitions and references over two or three names with all label kinds, sections, namespaces and files.",
 "Scoping is name mangling plus nearest-match search; tests cover ordinary programs, not the shadowing and nesting combinations.",
 ["phase_4.c", "phase_1.c", "wlalink/write.c"], [("name mangling", "phase_4.c:mangle_label"), ("unnamed labels", "wlalink/write.c:get_closest_anonymous_label")], ["linked ROM bytes", "exit code"], technique=ENUM,
 note=NB + 'every program of up to 4 label definitions in plain code, sections, namespaces, macros of every isolation mode and included files, and of up to 4 over two objects, is assembled and linked with a reference to every visible label at every place, in rotating written forms; invisible names and duplicates must be refused')
prop("L06", "Splitting a program into object and library files does not change the ROM",
 "However the sections of a program are distributed over object files and library files, linking gives the same code and data with the same resolved references, provided the order is kept. A global name defined in two files, memory maps or bank sizes that differ, and references to names that no file makes visible are refused, the biggest number of ROM banks counts, and of the sections that share a name beginning with two underlines only the first is kept.",
 ["configurations", "programs"], "All programs of up to three (of some kinds four) sections, definitions and pieces of plain code in all order-keeping distributions over up to three objects and libraries, with all cross references, and every arrangement of a duplicate, hidden or conflicting item in three files.",
 "The combinations of file distribution, library pruning and duplicate handling are not sampled by the tests.",
 ["wlalink/files.c", "wlalink/parse.c", "wlalink/analyze.c", "wlalink/check.c", "wlalink/discard.c"], [("object parsing", "wlalink/parse.c"), ("consistency checks", "wlalink/analyze.c")], ["linked ROM bytes", "exit code"], technique=ENUM,
 note=NB + 'Every program of up to 3 (some 4) items of 20 kinds - sections of each kind, plain code, RAM sections, exported and calculated definitions, link file definitions - is linked in every order-keeping distribution over up to 3 objects and libraries, and must give the ROM and the labels of the one-file program, in which every item knows its own address. Duplicates, hidden names and conflicting settings are placed in every file of 2 or 3.')
prop("L07", "Generated size, section and bank labels match the real layout",
 "Automatically generated sizes of labels, variables and structures, section start and end labels, and RAM usage labels always equal what can be measured in the finished layout: a label's size reaches to the next label that isn't a child or unnamed, to the end of its section, or outside sections to the first unused byte. The options that turn them off remove only them.",
 ["programs"], "All sequences of up to five labels of every kind, data, gaps, sections, macros, includes and banks; all pairs of section contents and kinds over objects; all short variable lists; all sets of RAM sections.",
 "These values depend on the neighbouring labels in address order; tests check single arrangements.",
 ["wlalink/write.c", "phase_4.c"], [("size labels", "wlalink/write.c:generate_sizeof_label_definitions"), ("section labels", "wlalink/write.c:fix_sectionstartend_labels")], ["linked ROM bytes", "symbol file"], technique=ENUM,
 note=NB + 'about 134,000 programs per quick run: all arrangements of labels of every kind, data, gaps, sections, macros, includes and banks, section contents and kinds over objects, variables, RAM sections and options; each generated size and label is compared with a model of the layout, in the symbol file and in bytes that use it')
prop("O01", "Console headers and checksums are computed as the hardware expects",
 "For Game Boy, SMS/Game Gear, SNES and Mega Drive ROMs the requested header fields hold the declared values at the documented addresses, and each requested checksum equals the one computed independently over the finished ROM for every ROM size and header position. Nothing else in the ROM changes.",
 ["configurations", "inputs"], "All header directives over ROM sizes, mapping modes and header field values, with non-trivial ROM contents.",
 "Checksum ranges depend on mapping mode and ROM size; tests use one size each.",
 ["wlalink/compute.c", "phase_1.c", "phase_3.c"], [("checksums", "wlalink/compute.c"), ("header directives", "phase_1.c")], ["linked ROM bytes"], technique=ENUM,
 note=NB + 'about 5,400 ROMs per quick run: every header field and pair of fields, every ROM size, header position and checksum range; each finished ROM is compared byte for byte with one made from the console documentation. Not judged: which bytes CHECKSUMSIZE leaves out when ROMSIZE names less than the ROM')
prop("O02", "Symbol files agree with the linked ROM",
 "Every label, definition and section listed in a symbol file has exactly the bank, address and value the program uses, every visible label appears once, and the source line information maps each address of the code in sections to the line that produced the byte there. This holds for the no$gmb, EQU, WLA and WLA with address-to-line formats.",
 ["programs"], "All bounded programs mixing labels, sections, banks, definitions, macros and includes, in every symbol format.",
 "Consistency of two outputs is a relation over whole programs; the tests compare few symbol files.",
 ["wlalink/write.c", "wlalink/listfile.c", "phase_4.c"], [("symbol output", "wlalink/write.c:write_symbol_file")], ["symbol file", "linked ROM bytes"], technique=ENUM,
 note=NB + 'markers are searched in the finished ROM, so what the symbol file says is compared with where the bytes are, without a second implementation of the layout')
prop("O03", "Output selection options write exactly the requested part of the ROM",
 "ROM output contains the whole image, program output contains exactly the range between the first and last used byte or the requested start and end addresses, and the CBM PRG mode prepends the load address. File headers, footers, backgrounds, ranges freed in a background and fill bytes appear exactly where declared.",
 ["configurations"], "All combinations of output mode, start and end, header, footer, background, fill and used ranges over small ROMs.",
 "The interaction of these options is untested beyond one example each.",
 ["wlalink/write.c", "wlalink/main.c", "phase_1.c"], [("ROM output", "wlalink/write.c:write_rom_file"), ("background", "phase_1.c")], ["output file bytes", "exit code"], technique=ENUM,
 note=NB + 'about 28,000 programs per quick run: every output mode with every start and end, header, footer, background, freed range and fill byte; each output file is compared byte for byte with a model. Not judged: the automatic load address when several labels qualify, SMC header bytes 8-10, bank headers in -b mode')
prop("O04", "List files show for each line the bytes that line produced",
 "In a list file every source line of the listed file appears in order, and the bytes and addresses shown for it are the bytes the finished ROM holds at that place, including values only the linker knew.",
 ["programs"], "All bounded programs over data, instructions, labels, macros, repeats and includes with listing on.",
 "The tests produce hardly any list files, and agreement with the ROM is a relation over whole programs.",
 ["listfile.c", "wlalink/listfile.c"], [("list file data", "listfile.c"), ("list file writing", "wlalink/listfile.c:listfile_write_listfiles")], ["list file", "linked ROM bytes"], technique=ENUM,
 note=NB + "list files are parsed and every shown byte is looked up in the finished ROM; lines come from the generator, not from the tools; rows of macros and repetitions (which the documentation says aren't listed) are judged by line number and bytes only")
prop("R01", "Output depends only on the inputs",
 "Assembling and linking the same inputs gives byte-identical objects, ROMs and symbol files, whatever the working directory, environment, memory contents, output file names, or diagnostic, listing and verbosity options. Repeating a run changes nothing.",
 ["configurations", "histories"], "All subsets of non-semantic options and environment changes over a set of feature-covering programs.",
 "Uninitialised memory or option side effects show up in only some environments; tests run in one.",
 ["main.c", "wlalink/main.c", "phase_4.c"], [("option handling", "main.c"), ("object output", "phase_4.c")], ["object files", "output files"], technique=ENUM,
 note=NB + 'feature-covering programs and all ordered pairs of 59 feature fragments run again under every variation and pair of variations; two more builds start automatic variables with a pattern or with zeros, and a preloaded library fills fresh memory and moves the clock. Not judged: dates (.SDSCTAG, -x), random numbers without .SEED, and the time printed in list files')
prop("R02", "Failed reads and writes never end in silent success",
 "If any file operation a tool needs fails (open, read, write or close; missing file, full disk, unreadable input) the tool ends with an error exit code and a message, and does not leave a damaged output that looks complete while reporting success.",
 ["fault_sequences"], "Every single failing file operation at every position of assembling and linking runs, for each failure kind.",
 "Tests never inject I/O faults.",
 ["main.c", "phase_4.c", "wlalink/main.c", "wlalink/write.c", "wlalink/files.c", "wlab/main.c"], [("output writing", "phase_4.c"), ("ROM output", "wlalink/write.c:write_rom_file")], ["exit code", "output files"],
 level=FE, technique="exhaustive fault injection into every file operation of the real tools",
 note=NB + "a preloaded shim makes each primitive file operation of each real tool run fail in turn (once, or from then on), about 57,000 runs; a run with a failed operation must end with an error code and a message or have made exactly the fault-free files. Not faulted: seeks in the assembler's own temporary file; .IFEXISTS takes a file that cannot be opened for a missing one")
prop("R03", "Malformed programs are rejected cleanly",
 "Whatever bytes a source file contains, the assembler stops with success or with an error message and a non-zero exit code and leaves no object file behind after an error. It never crashes or reads or writes outside its own data, and does not hang, apart from programs that ask for an endless loop themselves; .FAIL without a text is the one error that needs no message.",
 ["inputs"], "Every truncation of, and every single change of a token, length or byte in, feature-covering sources; every directive with all short operand lists; every instruction form cut short, for all processors.",
 "Tests contain mostly valid programs.",
 ["parse.c", "phase_1.c", "stack.c", "decode.c", "include.c"], [("tokenizer", "parse.c"), ("directive handlers", "phase_1.c")], ["exit code", "sanitizer reports", "object file"], technique=ENUM,
 note=NB + '172k malformed sources in about 200 s; signed overflow and over-wide shifts are not counted as memory errors.')
prop("R04", "Truncated object files and malformed link files are rejected cleanly",
 "Wherever an object or library file is cut off, whatever other file stands in its place, and whatever text a link file contains, the linker ends with success or with an error message and a non-zero exit code; a file that does not end behind a data block is refused. It never crashes, hangs, or touches memory outside its own data.",
 ["inputs", "crash_points"], "Every truncation of feature-covering object and library files, other kinds of files in their place, and all bounded link file texts and command lines.",
 "Tests never feed damaged files; a killed assembler or a full disk leaves exactly such files.",
 ["wlalink/parse.c", "wlalink/files.c", "wlalink/check.c", "wlalink/memory.c"], [("object parsing", "wlalink/parse.c"), ("link file parsing", "wlalink/files.c")], ["exit code", "sanitizer reports"], technique=ENUM,
 note=NB + 'the real linker, built with address and undefined-behaviour sanitizers, is given every truncation of 60 feature-covering object and library files, other files in place of each input, all bounded token sequences in every group of a link file, every truncation and special byte of feature-covering link files, and all short command lines; every run must end with success or a message and an error code, and truncated files must be refused')
prop("T01", "Binary-to-source conversion round-trips",
 "Converting any binary file to source text and assembling that text gives back the original bytes, for every option combination of the converter.",
 ["inputs", "configurations"], "All files up to 3 bytes over boundary values, all lengths up to 70, and all option combinations.",
 "The converter has no tests.",
 ["wlab/main.c"], [("conversion", "wlab/main.c")], ["converter output", "assembled bytes"], technique=ENUM,
 note=NB + 'the real wlab runs on files of all lengths up to 280 (and around the widths of the address column), all byte values at all columns, all neighbouring byte pairs, all option strings; its text goes through all 16 assemblers and the linker and must give the file back, with right address comments')
prop("T02", "File inclusion finds the right file and equals pasting its text",
 "Including a file (named whole or in pieces, from any directory, in conditions, sections and other included files, and with ONCE in loops and macros) assembles as if its text stood there, and errors name the file and line they are in. Files named by .INCLUDE, .INCBIN, .STRINGMAPTABLE and .FOPEN are looked for in the -I directories in their order, the .INCDIR directory and the current directory, with LATESTDIR in the latest file's and with RELATIVEDIR in the including file's directory only; -I doesn't change which main file is read. The dependency output lists exactly the files read.",
 ["configurations", "programs"], "All placements of a file over search directories, all second files, and include trees of three files over 19 ways of including.",
 "Search order has combinations of directories and flags; tests use one layout, and included text is inserted into the buffer the loops and macros run over.",
 ["include.c", "main.c", "phase_1.c"], [("include search", "include.c:include_file"), ("dependency output", "main.c")], ["bytes in the ROM", "dependency output"], technique=ENUM,
 note=NB + "all placements of a file over search directories x options x directives, all second and third files under LATESTDIR/RELATIVEDIR, and all include trees of three files with bodies of 1-3 items over 19 ways of including; oracle: the documented search order, and the assembler's own result for the text with the files' text pasted.")
prop("T03", "Comments, whitespace, letter case and line splitting do not change code",
 "Rewriting a program's comments (;, *, // and block comments, also with quotes and other comment signs inside), skipped .ENDASM text, blank lines, white space, line ends, the letter case of directives, or the line splitting of data lists leaves the output and the labels unchanged. Errors of the assembler and the linker name the line of the source that has the error, whatever precedes it.",
 ["programs"], "Every one of about 70 rewrites at every position of every line of 81 feature-covering programs, all pairs of whole-program rewrites, and errors behind all ordered pairs of features and behind every rewrite that moves lines.",
 "The comment and whitespace stripper is a character-level state machine; tests have one style each.",
 ["include.c", "parse.c"], [("preprocessing", "include.c:preprocess_file")], ["bytes in the ROM", "error messages"], technique=ENUM,
 note=NB + "every rewrite at every position of every line of 22 corpus programs and 59 feature fragments (about 70 rewrites), all pairs of whole-program rewrites, and four kinds of errors behind all ordered pairs of fragments and behind every rewrite that contains a line break; oracle: same ROM and labels, and the error's true line.")
