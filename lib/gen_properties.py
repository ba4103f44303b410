#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the texts stay reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why,
              "anchors": {"files": ["src/" + f for f in files],
                          "state": [dict(name=a, meaning=b, where="src/" + c) for a, b, c in state],
                          "mechanism": [dict(name=a, where="src/" + b) for a, b in mech],
                          "observe_at": list(observe), "hook_needed": None}})

prop("G01", "Every legal 6502 instruction form assembles to exactly its documented bytes",
 "For each of the 56 mnemonics, each operand form the syntax can express (none, A, #v, v, v,X, v,Y, (v), (v,X), (v),Y) and each 16-bit operand value given as a literal or as an already defined label, the assembler emits exactly the opcode of the documented 6502 instruction set followed by the operand in little-endian order, with values up to $FF using the one-byte (zero-page/immediate/indirect-indexed) modes, larger values the two-byte (absolute) modes, and jumps always two operand bytes.",
 ["inputs"], "all 56 mnemonics x all operand forms x all 65536 operand values x literal/label operands",
 "The opcode and parser unit tests check the tables and a list of example lines with one fixed operand each; nothing covers mnemonic x form x value, in particular the values around the zero-page/absolute boundary and the operand byte order for every value.",
 ["parser.c", "opcode.c", "assemble.c", "generator.c", "bitfields.h", "addressing_modes.h"],
 [("addressing mode masks", "parser.c"), ("mnemonic and opcode tables", "opcode.c"), ("opcode per addressing mode", "assemble.c"), ("byte emission", "generator.c")],
 observe=["the bytes written to the output file at the instruction's address"])

prop("G02", "Illegal instruction forms are rejected",
 "An instruction whose mnemonic has no documented 6502 opcode for the written operand form and operand size (for example STA #v, LDA (v), STX v,X, INX v, JMP v,X, a two-byte operand where only a zero-page mode exists, or a numeric branch offset above $FF) makes the assembly fail with a diagnostic, whether the operand is a literal, a defined label or a forward reference. Nothing else about such a line is accepted: no undocumented opcode is ever written.",
 ["inputs"], "all mnemonics x all operand forms x all operand values x literal / defined label / undefined label",
 "The tests reject a handful of hand-picked combinations; the complement of the instruction table (several hundred mnemonic/form/size combinations, times forward references) is untested, and wrong acceptance writes a garbage opcode silently.",
 ["parser.c", "opcode.c", "bitfields.h", "generator.c", "main.c"],
 [("bitfield of valid modes per mnemonic", "bitfields.h"), ("mode determination", "parser.c"), ("forward reference mode determination", "parser.c")],
 observe=["exit status and printed diagnostic", "bytes written to the output file"])

prop("G03", "A token sequence is accepted exactly when the documented grammar derives it",
 "A source line's sequence of tokens is accepted if and only if it is blank, an instruction with an optional operand in one of the documented forms, a label alone or before an instruction, 'label = literal', 'label .EQU literal', '.DEFINE label literal', '.ORG literal', '.END' or '* = literal', with nothing after it. Every other sequence, of any length, is diagnosed as an error at its first token that does not fit.",
 ["inputs"], "all sequences of up to eight tokens over all token kinds, and lines with more tokens than the line buffer of tokens holds",
 "The parser tests enumerate a set of example lines; sequences with trailing tokens, missing tokens and over-long sequences are a combinatorial space (17^8) that examples cannot cover.",
 ["parser.c", "parser.h", "lexer.c", "main.c"],
 [("grammar trees", "parser.c"), ("documented grammar", "parser.h"), ("limit on tokens per line", "lexer.c")],
 observe=["success or error of the line", "the position the diagnostic points at"])

prop("G04", "Numeric literals have exactly the value they denote, and overflow is an error",
 "A literal in hexadecimal ($, upper or lower case digits), binary (%) or decimal (no prefix) is accepted exactly when it has at least one digit, only digits of its base up to the end of the token, and a value of at most 65535; its value is then the number it denotes, leading zeros included. Every other literal is diagnosed, with values above 65535 always reported as too big no matter how many digits are written.",
 ["inputs"], "all literals of the stated length in all three bases, with arbitrary bytes as digits and terminators, and long digit runs",
 "The lexer tests try a dozen literals; wrap-around for long digit runs, every digit position, every illegal character and every terminator are outside them.",
 ["lexer.c"], [("literal conversion", "lexer.c")], observe=["literal token value or error code", "the emitted operand"])

prop("G05", "Words are classified exactly: mnemonics, registers, directives, labels, any case",
 "A word of letters, digits and underscores starting with a letter is the mnemonic, register or accumulator it spells in any mixture of upper and lower case, and otherwise a label identified case-insensitively by all its characters, of at most 63; longer words are rejected. A word starting with a period is one of the four directives, spelled in any case, or it is rejected.",
 ["inputs"], "all words of up to five characters over all 256 byte values, all words of up to 66 characters with symbolic bytes at the critical positions, and all case mixtures",
 "Tests use a few dozen words, all but a handful upper case; near-misses of mnemonics, case mixtures and the 63/64 boundary with every terminator are not covered.",
 ["lexer.c", "opcode.c"], [("text and directive lexing", "lexer.c"), ("mnemonic lookup", "opcode.c")],
 observe=["token kind and text", "mnemonic recorded for the line"])

prop("G06", "A source line is split into the same tokens whatever its layout",
 "Blanks and tabs around tokens, a comment from ';' to the end of the line, a missing final newline, LF or CRLF line ends and an optional ':' directly after a leading label never change the tokens of a line; every token records where it starts in the line. Any other character outside a comment (except NUL and byte $FF, which end the line), and a colon anywhere else, is an illegal character reported at its own position, and lexing a line never depends on the lines lexed before it.",
 ["inputs", "histories"], "all byte strings up to the stated length as lines, mutated template lines with all values of adjacent bytes, and pairs of lines lexed one after the other",
 "The lexer tests run about thirty well-formed and malformed lines; the number of layouts is exponential in the length, and state left over from a previous line cannot be seen with fresh structures per test.",
 ["lexer.c"], [("line tokenisation", "lexer.c"), ("per-line reset", "lexer.c")],
 observe=["token kinds, texts, values and positions", "error code and error position"])

prop("G07", "Branch displacements are exact within -128..127 and rejected outside",
 "For a branch to a label at address d from an instruction at address p, defined before or after the branch, the emitted displacement byte is d-p-2 in two's complement when that lies in -128..127, and otherwise the assembly fails with the 'branch offset too far away' diagnostic for that line. Jumps to any address are emitted as the exact 16-bit address.",
 ["inputs"], "all pairs of 16-bit instruction and label addresses, backward and forward, all eight branches and both jumps",
 "The generator tests use a few distances; the boundaries on both sides, for both definition orders, over the whole address space are not covered.",
 ["generator.c", "main.c", "parser.c"], [("displacement computation", "generator.c"), ("label resolution", "generator.c"), ("forward reference resolution", "generator.c")],
 observe=["operand bytes in the output file", "exit status and diagnostic"])

prop("G08", "A defined label always resolves to the value of its one definition",
 "After any sequence of label definitions, looking up a defined label yields exactly the value of its definition and looking up any other label reports that it is undefined, regardless of how many labels exist, how their names collide and when the table grows. Defining a label a second time by any of the four definition forms is reported as a redefinition.",
 ["histories", "inputs"], "all definition/lookup histories with symbolic names over the stated alphabets and tables of up to several hundred labels, including every growth step",
 "The symbol table tests insert fixed names into fixed tables; which names collide, wrap around the end of the table or are moved by a growth step depends on the history, which tests sample once.",
 ["symbol_table.c", "prime.c", "parser.c"],
 [("hashing and probing", "symbol_table.c"), ("growth", "symbol_table.c"), ("next table size", "prime.c"), ("redefinition check", "parser.c")],
 state=[("symbols/size/count", "open-addressing table of label/value pairs", "symbol_table.h")],
 observe=["value substituted for a label operand", "redefinition / undefined label diagnostics"])

prop("G09", "Every forward reference is patched at its own place with its own label",
 "Branches and jumps may name labels that are defined later; at the end of the source each such instruction, however many there are, has been completed in place with the value of the label it names, in the opcode and mode it was written in, and no other byte changes. If a label is never defined, or is only used by an instruction that does not allow forward references, the assembly fails and the diagnostic shows the line and operand of the offending reference.",
 ["histories", "inputs"], "all programs of the stated size mixing forward branches, jumps and indirect jumps with symbolic labels and addresses, and reference lists across every growth step of the list",
 "Unit tests create one or two references by hand and never run the whole resolution over a program; growth of the list, interleaving of references and definitions and the saved source line are history dependent.",
 ["forward_reference.c", "generator.c", "main.c", "parser.c"],
 [("saved references", "forward_reference.c"), ("resolution loop", "main.c"), ("patching", "generator.c")],
 state=[("refs/curr/size", "growing list of pending references", "forward_reference.h")],
 observe=["bytes of the output file", "diagnostic text, line and arrow"])

prop("G10", "The output image places each byte at its address and nothing else",
 "For a program that assembles successfully, the byte at offset a of the output file is the byte the program assembled at address a, where addresses start at 0, advance by the instruction length and are set by '.ORG' and '*='; offsets never written read as zero, nothing is written beyond the last assembled byte, and '.END' stops assembly so that later lines have no effect. The reported number of bytes is the sum of the instruction lengths and the reported number of symbols the number of labels defined.",
 ["programs", "inputs"], "all programs of the stated number of lines over all line kinds with symbolic values, addresses and labels, as long as no address is assembled twice",
 "There is no end-to-end test at all: no test runs main; origin changes in either direction combined with forward references were in fact broken.",
 ["main.c", "generator.c", "parser.c"],
 [("assembly loop", "main.c"), ("seek and emit", "generator.c"), ("origin handling", "parser.c")],
 observe=["the output file", "the printed summary"])

prop("G11", "Success exactly for programs without errors, otherwise one diagnostic",
 "The assembler exits with status 0 and prints the success summary if and only if every line up to '.END' or the end of the source is valid and every referenced label is defined and in range. Otherwise it exits with a failure status, prints no summary and prints exactly one diagnostic, which carries the file name and the number of the first offending line and the message of that kind of error. A reference to a label that is never defined, or that is too far away, counts where it stands, but is only diagnosed at the end of the source, so an error in any line comes before it.",
 ["programs", "inputs"], "all programs of the stated number of lines over all line kinds, valid and invalid, with symbolic values",
 "No test runs the program; the error paths of the main loop (which error, which line number, whether anything is printed at all) are untested.",
 ["main.c", "error.c", "parser.c", "lexer.c", "generator.c"],
 [("error propagation", "main.c"), ("diagnostics", "error.c")],
 observe=["exit status", "printed text"])

prop("G12", "Diagnostics quote the line and point the arrow at the offending column",
 "A diagnostic for a source line prints 'file:line: ERROR: ' and the message of the error, then the source line without its trailing blanks and line end, and then, for errors that have a position, an arrow whose tip stands in the column of the offending character when tabs advance to the next multiple of eight columns. Errors that concern no line print only their message.",
 ["inputs"], "all error kinds, all lines of the stated length over blanks, tabs and visible characters, all error positions and line numbers",
 "The error tests print to the terminal and assert almost nothing; tab alignment for every column and trailing blank handling are not checked.",
 ["error.c", "forward_reference.c"], [("formatting", "error.c"), ("saved line of a forward reference", "forward_reference.c")],
 observe=["printed text"])

prop("G13", "No input line or program causes memory-unsafe or undefined behaviour",
 "For every source text the assembler neither reads nor writes outside its buffers, uses freed or uninitialised memory, overflows signed arithmetic, nor loops forever, and it terminates with a normal exit status. At exit every file it opened has been closed exactly once.",
 ["inputs", "programs"], "all lines of arbitrary bytes up to the stated length, mutated long lines, and whole runs of the program on all sources up to the stated size",
 "The tests run without sanitizers on well-behaved inputs; bytes above $7F, embedded NULs, maximum-length words, full token sequences and error paths are where C parsers fail.",
 ["lexer.c", "parser.c", "error.c", "forward_reference.c", "symbol_table.c", "generator.c", "main.c"],
 [("token buffers", "lexer.c"), ("table growth", "symbol_table.c"), ("reference list growth", "forward_reference.c"), ("cleanup", "main.c")],
 observe=["sanitizer or engine memory checks", "termination"])

prop("G14", "Resource failures end in a clean failure, never in a crash or a success report",
 "If any memory allocation, opening of a file, read of the source or write or close of the output fails, the assembler ends with a failure status and an error message, does not print the success summary and does not touch memory it failed to obtain. It reports success only when the complete image has been written, and closes every file it opened.",
 ["fault_sequences", "programs"], "every single failing allocation, and every failing open/read/write/close call, at every point of the runs of the stated programs",
 "Tests never inject faults.",
 ["main.c", "symbol_table.c", "forward_reference.c", "lexer.c", "opcode.c"],
 [("allocation checks", "main.c"), ("abort path", "main.c"), ("I/O checks", "main.c")],
 observe=["exit status", "printed text", "memory accesses"])

prop("G15", "The command line selects exactly the source and output files",
 "The single positional argument is the source file, opened for reading only; the output is written to the argument of -o/--output, or to a.out when the option is absent, wherever the option stands. No output file is created or truncated when the source cannot be opened, and zero or more than one source is a usage error. A source that cannot be opened is an error that names it, and an output that cannot be created is an error too; both end with a failure status. (The output is a file other than the source.)",
 ["configurations", "inputs"], "all sequences of up to four command-line events (options and positional arguments) and both outcomes of opening the source",
 "No test runs the command line.",
 ["main.c"], [("option parsing", "main.c"), ("file opening order", "main.c")],
 observe=["paths and modes of opened files", "exit status"])

prop("G16", "Each physical source line is one logical line, whatever its length",
 "The source is divided into lines only at newline characters: a line of any length is assembled as a whole, its comment never turns into code, and line numbers in diagnostics count physical lines. The last line counts whether or not it ends in a newline.",
 ["inputs", "programs"], "sources whose lines have lengths around every power of two up to 512 bytes with symbolic content at the boundaries",
 "No test reads a source file.",
 ["main.c", "lexer.c"], [("line reading", "main.c")], observe=["output file and diagnostics of whole runs"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
