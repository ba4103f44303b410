"""The harness runs that decide each property.

A run: (name, harness file, defines, options).  Options:
  tier    'quick' | 'thorough' | 'both'
  what    the bounds, in words
  real    compare sampled paths with the real gaia binary too
  ub      instrument the repository's code with UBSan traps
  may     cover labels that need not be reached in this run
"""
INV = 'the program is invalid'
VAL = 'the program is valid'
END = 'end of a run'


def R(name, h, d='', tier='both', what='', **o):
    return dict(name=name, h=h, d=d.split(), tier=tier, what=what, **o)


# what stands before the text of the harness in the runs 'context' (harness/check.h)
CTX = (' after each of: comments, blank lines and a line of 300 characters; 20 constants; instructions of every form; 10 forward references; '
       'an origin of $80F0; 260 lines; a label, blanks and digits as long as they may be')


RUNS = {
    'G01': [
        R('forms', 'instr', '-DKINDS=4 -DASPECTS=(A_ACCEPT|A_IMAGE)',
          what='56 mnemonics x 9 operand forms x operand written with 5 decimal, 1-4 hexadecimal, 8 or 16 binary '
               'symbolic digits or as a label defined with 5 symbolic digits, with and without a label before it'),
        R('context', 'instr', '-DKINDS=2 -DCTX=1,2,3,4,5,6,7 -DASPECTS=(A_ACCEPT|A_IMAGE)', what='operands of 5 decimal symbolic digits or a defined label,' + CTX),
    ],
    'G02': [
        R('forms', 'instr', '-DKINDS=5 -DASPECTS=(A_REJECT)',
          what='as G01/forms, and with a forward reference to a label defined later with 5 symbolic digits'),
        R('context', 'instr', '-DKINDS=2 -DCTX=1,2,3,4,5,6,7 -DASPECTS=(A_REJECT)', what='as G01/context'),
    ],
    'G03': [
        R('sequence', 'gram_unit', unit=True, what='parse_line() on sequences of up to 8 tokens, every type symbolic'),
        R('prefixes', 'gram_main', '-DTAIL=2', tier='quick',
          what='whole program: every prefix of every sentence of the grammar followed by up to 2 tokens, each any byte or any word'),
        R('replace', 'gram_main', '-DTAIL=1 -DREST',
          what='whole program: every sentence with one token replaced by or one token inserted: any byte or any word'),
        R('prefixes3', 'gram_main', '-DTAIL=3', tier='thorough', what='as prefixes, with up to 3 further tokens'),
        R('many', 'gram_main', '-DTAIL=0 -DMANY=5,6,7,8,9,10,16,40,300', may=[VAL], what='whole program: every prefix of every sentence followed by 5-300 tokens of any one kind'),
        R('context', 'gram_main', '-DTAIL=1 -DREST -DCTX=1,2,3,4,5,6,7', what='as replace,' + CTX),
    ],
    'G04': [
        R('bytes4', 'lit_bytes', '-DN=4', what='JMP with $, %, or a digit, followed by 4 arbitrary bytes'),
        R('digits', 'lit_digits', what='literals of up to 24 (hexadecimal, decimal) or 72 (binary) digits, and of 20 lengths up to 1000: leading zeros then '
                                       '5-17 symbolic digits; or first and last digits symbolic and zeros between; in six places of the syntax'),
        R('context', 'lit_bytes', '-DN=2 -DCTX=1,2,3,4,5,6,7', what='as bytes4 with 2 bytes,' + CTX),
        R('bytes5', 'lit_bytes', '-DN=5', tier='thorough', what='as bytes4 with 5 arbitrary bytes'),
    ],
    'G05': [
        R('words3', 'word', '-DCASE=0 -DN=3', what='a word of 3 symbolic characters, the first any byte'),
        R('registers', 'word', '-DCASE=1', what='index registers: one or two symbolic characters'),
        R('directives', 'word', '-DCASE=2', what='the four directives in any case, and with a symbolic byte put in or in place of another'),
        R('pairs', 'word', '-DCASE=3', what='two labels of 1-2 symbolic characters: definition and use'),
        R('long', 'word', '-DCASE=4', what='labels of 60-65 characters with a symbolic one, and a use of the same or of one shorter'),
        R('unbounded', 'word', '-DCASE=5', what='words of 50-140 characters with a symbolic byte'),
        R('mnemonics', 'word', '-DCASE=6', what='56 mnemonics in any case with a symbolic byte inside or behind'),
        R('context', 'word', '-DCASE=0 -DN=2 -DCTX=1,2,3,4,5,6,7', what='a word of 2 symbolic characters, the first any byte,' + CTX),
        R('context2', 'word', '-DCASE=6 -DCTX=3', what='as mnemonics, after instructions of every form'),
        R('words4', 'word', '-DCASE=0 -DN=4', tier='thorough', what='a word of 4 symbolic characters'),
    ],
    'G06': [
        R('bytes3', 'g06_bytes', '-DN=3', what='every source of 3 bytes'),
        R('gaps', 'layout', '-DCASE=0', what='13 lines, 0-2 symbolic blanks in every gap, comments of 0-2 arbitrary bytes, three line ends'),
        R('intruder', 'layout', '-DCASE=1', what='20 lines with an arbitrary byte in place of or before each character'),
        R('context', 'layout', '-DCASE=1 -DCTX=2,3,4,5,6,7', what='as intruder,' + CTX),
        R('memory', 'layout', '-DCASE=2 -DN=2', what='9 lines followed by a line of 2 arbitrary bytes'),
        R('comments', 'layout', '-DCASE=3 -DN=4', what='6 lines with a comment of 4 arbitrary bytes, before another line'),
        R('words', 'layout', '-DCASE=4 -DLENS=1,3,15,16,17,33,63', what='two lines with labels of 1-63 characters in five forms, and a use of the second after another line'),
        R('words2', 'layout', '-DCASE=4 -DLENS=1,2,3,4,7,8,9,14,15,16,17,18,30,31,32,33,34,62,63', tier='thorough', what='the same with more lengths'),
        R('bytes4', 'g06_bytes', '-DN=4', tier='thorough', what='every source of 4 bytes'),
        R('intruder2', 'layout', '-DCASE=1 -DTWO', what='as intruder with two arbitrary bytes'),
        R('memory3', 'layout', '-DCASE=2 -DN=3', tier='thorough', what='as memory with 3 arbitrary bytes'),
    ],
    'G07': [
        R('far', 'branch', what='8 branches, JMP, JSR, JMP (); instruction and label anywhere in 64K (symbolic 16-bit), label before or after, as address or constant'),
        R('context', 'branch', '-DNUM()=s_bin(16) -DCTX=1,2,4,6', what='as far, after comments and a long line, 20 constants, 10 forward references or 260 lines'),
        R('near', 'branch_line', what='real programs: 122-130 one-byte instructions between a branch and its label, at a symbolic 16-bit address'),
        R('decimal', 'branch', '-DNUM()=s_digits(5)', tier='thorough', what='as far with 5 symbolic decimal digits'),
    ],
    'G08': [
        R('table', 'sym_unit', '-DPRES=0', real=False, unit=True, what='an empty table, two definitions and a lookup; labels of a symbolic character, or L or M and a '
          'symbolic character (colliding ones among them); symbolic 16-bit values'),
        R('growth', 'sym_unit', '-DPRES=7,17 -DNSHAPE=2', real=False, unit=True, what='as table, with 7 or 17 labels before: the table grows between the two'),
        R('large', 'sym_unit', '-DPRES=40,83,168,343 -DNSYM=1 -DNSHAPE=2', real=False, unit=True, what='as table, one definition, with 40, 83, 168 or 343 labels before: the table grows'),
        R('cluster', 'sym_cluster', real=False, unit=True, what='three labels crowding at any one place of the table, before or after 5 or 15 others, then one with a symbolic '
          'character and value: the table grows'),
        R('cluster2', 'sym_cluster', '-DSIZES={79,163,39},{163,331,81},{331,673,165} -DCROWD=5', tier='thorough', real=False, unit=True, what='the same with five crowding labels of 40, 82 or 166'),
        R('programs', 'sym_main', '-DLINES=2 -DNUM()=s_digits(5)', what='programs of 2 lines (four forms of definition, uses) over four labels, two of which have the '
          'same hash, with values of 5 symbolic digits, and a use'),
        R('crowded', 'sym_main', '-DPRE=7 -DLINES=2 -DNUM()=s_digits(5)', what='as programs, after 7 other definitions: the table grows'),
        R('context', 'sym_main', '-DNUM()=s_bin(16) -DLINES=1 -DCTX=1,2,3,4,5,6,7', what='as programs with 1 line,' + CTX),
        R('many', 'full', '-DNUM()=s_bin(16) -DCASES=1 -DFIRST=3', steps=4000000000, what='1500 labels, then a use and a definition with a symbolic digit in their names'),
        R('empty3', 'sym_unit', '-DPRES=0 -DNSYM=3 -DNSHAPE=2', tier='thorough', real=False, unit=True, what='as table with three definitions'),
        R('growth3', 'sym_unit', '-DPRES=0,6,7,8,16,17,18,38,39', tier='thorough', real=False, unit=True, what='as growth, all shapes of labels, at all sizes around a growth step'),
        R('larger', 'sym_unit', '-DPRES=39,40,82,83,167,168,342,343,682 -DNSYM=2 -DNSHAPE=2', tier='thorough', real=False, unit=True, what='as large with two definitions'),
        R('programs3', 'sym_main', '-DLINES=3 -DNUM()=s_digits(5)', tier='thorough', what='as programs with 3 lines'),
        R('crowded17', 'sym_main', '-DPRE=17 -DLINES=2 -DNUM()=s_digits(5)', tier='thorough', what='as crowded after 17 definitions'),
    ],
    'G09': [
        R('many', 'refs', '-DNUM()=s_bin(16)', what='1, 7, 8, 15 and 16 forward references (JMP, BNE, JMP (), JSR in turn); one of them to a label with a symbolic '
          '16-bit value, one that is never defined or one behind an origin; symbolic blanks, comments and line ends'),
        R('many32', 'refs', '-DNUM()=s_bin(16) -DSIZES=31,32,33 -DPLACES=30,31,32', what='as many with 31, 32 and 33 references'),
        R('programs', 'refs_prog', '-DNUM()=s_bin(16)', what='programs of 3 lines of 8 kinds: references and definitions of two labels, symbolic origins'),
        R('context', 'refs_prog', '-DNUM()=s_bin(16) -DLINES=2 -DCTX=1,2,3,4,5,6,7', what='as programs with 2 lines,' + CTX),
        R('many256', 'refs', '-DNUM()=s_bin(16) -DSIZES=64,128,256 -DPLACES=0,63,127,255', steps=50000000, what='as many with 64, 128 and 256 references'),
        R('many1030', 'refs', '-DNUM()=s_bin(16) -DSIZES=512,1030 -DPLACES=0,1029', steps=4000000000, what='as many with 512 and 1030 references'),
        R('names', 'refs_name', '-DNUM()=s_bin(16)', what='two forward references to labels of 1-63 characters that are the same but for case, differ in one place, or of which '
          'one is longer by one; one or both defined later, in four ways, with a symbolic 16-bit value'),
        R('names63', 'refs_name', '-DNUM()=s_bin(16) -DLENS=' + ','.join(map(str, range(1, 64))), tier='thorough', what='as names with every length'),
        R('all', 'refs', '-DNUM()=s_bin(16) -DSIZES=1,2,3,4,5,6,7,8,9,10,11,15,16,17,31,32,33,63,64 -DPLACES=0,1,2,3,4,5,6,7,8,9,10,14,15,16,30,31,32,62,63',
          tier='thorough', what='as many with more numbers of references and places'),
        R('programs4', 'refs_prog', '-DNUM()=s_bin(16) -DLINES=4', tier='thorough', what='as programs with 4 lines'),
        R('programs5', 'refs_prog', '-DNUM()=s_bin(16) -DLINES=5', tier='thorough', timeout=5000, what='as programs with 5 lines'),
    ],
    'G10': [
        R('programs', 'prog', '-DNUM()=s_bin(16) -DLINES=4 -DASPECTS=(A_STATUS|A_IMAGE|A_BYTES|A_SYMS)', what='programs of 4 lines of 10 kinds: instructions of '
          '1-3 bytes, labels, constants, symbolic 16-bit origins, comments, .END and text after it, forward references'),
        R('context', 'prog', '-DNUM()=s_bin(16) -DLINES=2 -DCTX=1,2,3,4,5,6,7 -DASPECTS=(A_STATUS|A_IMAGE|A_BYTES|A_SYMS)', what='as programs with 2 lines,' + CTX),
        R('long', 'prog_long', '-DSIZES=3,100,127,257', may=[INV], what='6-514 bytes of instructions in two pieces, one of them at a symbolic 15-bit origin, with jumps back and ahead'),
        R('full', 'full', '-DNUM()=s_bin(16) -DCASES=1 -DFIRST=0', steps=4000000000, what='65532 bytes of instructions and two more instructions of 1-3 bytes or none, a label or the end'),
        R('sum', 'full', '-DNUM()=s_bin(16) -DCASES=1 -DFIRST=1', steps=4000000000, what='more bytes than memory: 65528 bytes, a symbolic 15-bit origin, and 5-11 bytes on top of them'),
        R('long2', 'prog_long', '-DSIZES=10,99,128,255,256,511,513,1030', tier='thorough', steps=100000000, may=[INV], what='the same with 20-2060 bytes'),
        R('programs5', 'prog', '-DNUM()=s_bin(16) -DLINES=5 -DASPECTS=(A_STATUS|A_IMAGE|A_BYTES|A_SYMS)', tier='thorough', what='as programs with 5 lines'),
    ],
    'G11': [
        R('lines', 'errs', '-DNUM()=s_bin(16) -DLINES=3', what='programs of 3 lines of 26 kinds, valid ones and every kind of error, with symbolic characters and numbers'),
        R('context', 'errs', '-DNUM()=s_bin(16) -DLINES=2 -DCTX=1,2,3,4,5,6,7', what='as lines with 2 lines,' + CTX),
        R('lines4', 'errs', '-DNUM()=s_bin(16) -DLINES=4', tier='thorough', timeout=7000, what='as lines with 4 lines'),
    ],
    'G12': [
        R('columns', 'diag', '-DLEAD=0 -DMID=1', what='28 lines with an error, every kind of diagnostic, the first token in columns up to 17 after blanks and symbolic '
          'tabs or blanks, symbolic gaps and trailing blanks, three line ends, line numbers of one to three digits'),
        R('gaps', 'diag', '-DLEAD=1 -DMID=2', what='the same lines with 1-2 symbolic tabs or blanks in every gap and up to 3 at the end'),
        R('far', 'diag', '-DLEAD=2 -DMID=1 -DCOLS=61,127,254', what='as columns, the first token behind 61, 127 or 254 blanks and tabs'),
        R('context', 'diag', '-DLEAD=3 -DMID=1 -DCTX=2,3,4,5', what='as columns in fewer columns, after 20 constants, instructions of every form, 10 forward references or an origin'),
        R('far2', 'diag', '-DLEAD=2 -DMID=1 -DCOLS=30,61,79,100,127,254,511,600,1022', tier='thorough', what='the same with up to 1022'),
        R('names', 'args', '-DBAD -DEVENTS=2 -DNLEN=2 -DLONGEST=1030 -DLONG=0,1,14,63,127,255,1023', real=False, may=[INV, VAL, END], what='an error in sources with names of 1-2 arbitrary bytes and up to 1023 letters'),
        R('gaps3', 'diag', '-DLEAD=1 -DMID=3', tier='thorough', what='as gaps with 1-3'),
        R('gaps4', 'diag', '-DLEAD=0 -DMID=2', tier='thorough', what='as columns with 1-2'),
    ],
    'G13': [
        R('bytes4', 'g06_bytes', '-DN=4 -DSAFE', ub=True, what='every source of 4 bytes'),
        R('limits', 'memsafe', '-DSAFE', ub=True, what='lines at the limits of the buffers of tokens, words and lines with 1-3 arbitrary bytes'),
        R('intruder', 'layout', '-DCASE=1 -DSAFE', ub=True, what='20 lines with an arbitrary byte in place of or before each character'),
        R('refs', 'refs', '-DNUM()=s_bin(16) -DSAFE -DSIZES=1,7,8,15,16,17,31,32,33', ub=True, what='up to 33 forward references'),
        R('labels', 'sym_main', '-DNUM()=s_bin(16) -DPRE=7 -DLINES=2 -DSAFE', ub=True, what='9 labels, with collisions: the table grows'),
        R('lines', 'errs', '-DNUM()=s_bin(16) -DLINES=2 -DSAFE', ub=True, what='programs of 2 lines of 26 kinds, every kind of error among them'),
        R('long', 'longline', '-DNUM()=s_bin(16) -DSAFE', ub=True, what='lines of up to 513 bytes'),
        R('bytes5', 'g06_bytes', '-DN=5 -DSAFE', tier='thorough', timeout=4000, ub=True, what='every source of 5 bytes'),
        R('two', 'layout', '-DCASE=1 -DTWO -DSAFE', tier='thorough', ub=True, what='as intruder with two arbitrary bytes'),
        R('lines3', 'errs', '-DNUM()=s_bin(16) -DLINES=3 -DSAFE', tier='thorough', ub=True, what='as lines with 3 lines'),
        R('crowd', 'sym_main', '-DNUM()=s_bin(16) -DPRE=37 -DLINES=2 -DSAFE', tier='thorough', ub=True, what='as labels with 39 labels'),
        R('columns', 'diag', '-DLEAD=0 -DMID=1 -DSAFE', tier='thorough', ub=True, what='the lines of G12/columns'),
    ],
    'G14': [
        R('one', 'faults', real=False, may=[INV, VAL, END], what='five programs (forward references, growth of both tables, an error, long lines), one fault: the n-th '
          'allocation (that one, or that and all later ones), reading at any place, opening of the output, the n-th byte written, the n-th flush; n symbolic'),
        R('two', 'faults', '-DTWO', real=False, may=[INV, VAL, END], what='the same with every pair of faults'),
    ],
    'G15': [
        R('args', 'args', '-DEVENTS=3', real=False, may=[INV, VAL, END], what='up to 3 of: file name, -o F, -oF, --output F, --output=F, --ou=F, --; names of 1-2 arbitrary '
          'bytes; source missing or not, output creatable or not'),
        R('args4', 'args', '-DEVENTS=4 -DNLEN=1', real=False, may=[INV, VAL, END], what='up to 4 of them; names of one arbitrary byte'),
        R('long', 'args', '-DEVENTS=3 -DNLEN=1 -DLONGEST=4100 -DLONG=13,31,63,127,255,1023,4095', real=False, may=[INV, VAL, END], what='up to 3 of them; names of an arbitrary byte and up to 4095 letters'),
        R('args5', 'args', '-DEVENTS=5 -DNLEN=1', tier='thorough', real=False, may=[INV, VAL, END], what='up to 5 of them'),
        R('names4', 'args', '-DEVENTS=3 -DNLEN=4', tier='thorough', real=False, may=[INV, VAL, END], what='up to 3 with names of up to 4 arbitrary bytes'),
    ],
    'G16': [
        R('lengths', 'longline', '-DNUM()=s_bin(16)', what='lines of lengths around 64, 80, 100, 119, 128, 199, 255, 299 and 511 (and that many lines): code, comments with '
          'code in them, operands, literals and errors at their end with symbolic bytes; with and without a final newline'),
        R('context', 'longline', '-DNUM()=s_bin(16) -DBASES=130,299 -DSPAN=2 -DCTX=2,3,4,5,6', what='lengths around 130 and 299, after 20 constants, instructions of every form, '
          '10 forward references, an origin or 260 lines'),
        R('every', 'longline', '-DNUM()=s_bin(16) -DBASES=130 -DSPAN=240', what='every length from 10 to 250'),
        R('huge', 'longline', '-DNUM()=s_bin(16) -DBASES=1023,2048 -DSPAN=2', steps=100000000, what='lengths around 1023 and 2048'),
        R('lines', 'full', '-DNUM()=s_bin(16) -DCASES=1 -DFIRST=2', steps=4000000000, what='65533 lines and four more, with references from the first lines'),
        R('huge3', 'longline', '-DNUM()=s_bin(16) -DBASES=65537 -DSPAN=0', steps=4000000000, what='lengths of 65537'),
        R('huge4', 'longline', '-DNUM()=s_bin(16) -DBASES=16384,32768,65536 -DSPAN=2', tier='thorough', steps=4000000000, what='lengths around 16384, 32768 and 65536'),
        R('every2', 'longline', '-DNUM()=s_bin(16) -DBASES=370,610,850 -DSPAN=240', tier='thorough', what='every length from 250 to 970'),
        R('huge2', 'longline', '-DNUM()=s_bin(16) -DBASES=4096,8192 -DSPAN=4', tier='both', steps=400000000, what='lengths around 4096 and 8192'),
    ],
}

NOTES = {
    'G14': 'Faults are injected by the modelled libc: allocations, reads, opening the output, writes and flushes.',
    'G15': 'argp is a model written after the glibc documentation (harness/libc.c); the output file is assumed to be another file than the source.',
    'G13': 'Every access is checked by the executor against object bounds, lifetime and initialisation; the repository code is instrumented with UBSan traps.',
}
