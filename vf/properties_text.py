TR = ' Trusted: CBMC 6.11 front end/contract instrumentation and solvers, and the specification text in harness/.'
prop('C01', 'Constant folding computes what the generated program would compute',
 'Whenever the compiler evaluates an arithmetic, comparison, logical, conditional or conversion expression over constants at compile time, the resulting type and value are exactly those the compiled wasm32 program would compute at run time for the same operand types and values (wrap-around integer arithmetic, truncating narrowing, IEEE float and double, C conversion rules). Expressions whose evaluation traps at run time (division by zero, INT_MIN/-1, out-of-range float to integer) are never folded to a value, and folding never crashes the compiler.',
 ['inputs', 'programs'], 'every operator, every pair of operand types and every pair of operand values; every type in sizeof/alignof of scalars',
 'The suite folds a few dozen hand-picked constants; the space is 15x15 operand types times 2^128 value pairs per operator, and a wrong corner is silent miscompilation.',
 ['c.c', 'c.h'], [('numval_convert/unop/binop', 'c.c'), ('static_eval and its callers', 'c.c')],
 'Proof per operator and type over all values, unbounded: every obligation over numval_convert, numval_unop, numval_binop and static_eval is discharged on the current source. Float multiply/divide bit-exactness against the solver\'s IEEE semantics. Mixed-type pairs of multiplication/division are proved in the thorough tier and sampled (bounded) in quick.' + TR)
prop('C02', 'Code selected for operators, casts, loads and stores has C semantics',
 'For every scalar operator, conversion between arithmetic types, literal, load and store, the wasm instruction sequence the compiler selects is well typed and, executed by the wasm core semantics, yields exactly the C result for every operand value, trapping only where C leaves the result undefined (division by zero, quotient overflow, float out of integer range). A store writes exactly the bytes of the stored value, little endian, and a load of the same type reads the value back.',
 ['inputs', 'programs'], 'every operator x operand type x operand values; every ordered pair of arithmetic types x value; every scalar type x address x offset x value',
 'Tests execute a handful of operand values per instruction; sign/zero extension and trap conditions differ only on specific values of specific type pairs.',
 ['c.c', 'w.h'], [('asm_numerical_cast, asm_binary, asm_unary', 'c.c'), ('asm_numerical_const, asm_load, asm_store', 'c.c')],
 'Proof over all operand values for each instruction-selection function (executed through an independent executable semantics of the wasm instructions by opcode number). Expression-tree composition (evaluation order, lvalues) is not covered.' + TR)
prop('C14', 'Character classification follows the C-locale table',
 'For every argument from EOF to 255, each <ctype.h> classification function returns nonzero exactly on the members of its class in the C locale, and toupper/tolower map exactly the 26 letters and leave everything else unchanged.',
 ['inputs'], 'every int argument in -1..255 of every function',
 'The tests call each function on a few letters; control characters, EOF and 128..255 are never tried.',
 ['lib/src/ctype.c', 'lib/include/ctype.h'], [('isalnum..isxdigit, toupper, tolower', 'lib/src/ctype.c')],
 'Proof for all arguments, unbounded. The library source is compiled by goto-cc for a 32-bit model rather than by wcpl itself.' + TR)
prop('C07', 'Binary output encodes every instruction, constant, name and section exactly',
 'Every module is written in the standard WebAssembly binary format: an independent decoder reads back from the written bytes exactly the opcode and the operands of every instruction (minimal LEB128 integers for every value, signed i32/i64 constants, little-endian floats preserving every bit pattern, memory alignment and offset, branch tables, type vectors, lane indexes), every length-prefixed name and data string, and each section and function body is preceded by exactly its byte length, with nothing missing and nothing extra.',
 ['inputs', 'programs'], 'every instruction of the instruction set x every operand value; every 64-bit integer; every section content length',
 'The tests only run modules with the operand values and instructions their few programs happen to use; most opcodes and nearly all LEB128 boundaries never occur.',
 ['w.c', 'w.h'], [('wasm_unsigned/signed/float/double/byte/name/data', 'w.c'), ('wasm_expr, wasm_in, instr_sig', 'w.c'), ('wasm_section_start/end, wasm_code_start/end', 'w.c')],
 'Proof for all operand values of every instruction in a table generated from an independent assembler. Names, data strings, function bodies and branch tables are bounded (16, 12, 16 bytes, 5 labels). The order and content of whole sections is not covered.' + TR)
prop('C08', 'The instruction table matches the WebAssembly instruction set both ways',
 'For every instruction of the instruction set (core, sign extension, saturating truncation, bulk memory, reference types, 128-bit SIMD) the assembler and disassembler agree with the standard: its opcode prints as its standard text name, that name is recognised and denotes that opcode and nothing else, no name outside the set is accepted as an instruction, and its immediates are of the standard kind. Value types carry their standard codes and names.',
 ['inputs', 'programs'], 'all 439 instructions, both directions',
 'Object files are text and are read back by name, so one wrong row silently changes or rejects programs that use that instruction; the suite touches only a fraction of the rows.',
 ['w.c', 'w.h'], [('instr_name, name_instr, nimap_intern', 'w.c'), ('instr_sig', 'w.c'), ('valtype_name', 'w.c')],
 'Proof, complete over the finite instruction set, against a table generated by an independent assembler. The dictionary primitives are used through their contracts.' + TR)
prop('C15', 'string.h functions meet their ISO C / POSIX definitions on all inputs',
 'The string and memory functions of the runtime library (strlen, strnlen, strchr, strrchr, strcmp, strncmp, strcasecmp, strncasecmp, strcoll, memcmp, memchr, memmem, strstr, strspn, strcspn, strpbrk, strcpy, strncpy, strcat, strncat, memccpy, memcpy, memmove, memset, bzero, memswap, strdup, strndup, strxfrm, strtok, strtok_r, strerror) return exactly what ISO C / POSIX define (comparison as unsigned char, terminator handling, first/last occurrence, empty needle, zero filling, limits), write exactly the bytes they should, and never read or write beyond the terminator, the limit or the block.',
 ['inputs'], 'every string and block content, every length and limit',
 'A handful of ASCII strings is tested; wrong signedness, missing terminators and over-reads at limits show only for particular bytes and lengths, and over-reads are invisible to wasm programs.',
 ['lib/src/string.c', 'lib/include/string.h'], [('strlen .. strtok_r', 'lib/src/string.c')],
 'strlen, strnlen, strchr, strrchr, strcmp, strncmp, strcasecmp, strncasecmp, memcmp, strcpy, strncpy, memchr, memccpy, memcpy, memmove, memset, bzero: proof by loop invariants for objects of any size below 2 GB. All functions also, and the others only, bounded: strings and blocks up to 5 bytes (7 thorough) with exact over-read detection.' + TR)
prop('C16', 'strtol and atoi families convert any string exactly as ISO C defines',
 'For every string and base (0, 2..36), strtol, strtoul, strtoll and strtoull skip white space, take an optional sign and (base 0/16) 0x or 0 prefix, and consume exactly the longest run of valid digits; they return its exact value, saturate to the limits of the result type and set errno to ERANGE exactly when the value is out of range (unsigned types negate modulo 2^N), and store the end of the sequence, or the start of the string when there is no conversion. atoi, atol and atoll return the exact decimal value whenever it is representable, including the most negative one.',
 ['inputs'], 'every string of any length, every base',
 'Tests convert a few short decimal numbers; limits, prefixes without digits, bases above 16 and the most negative value need specific strings.',
 ['lib/src/stdlib.c'], [('strntoumax, digitval', 'lib/src/stdlib.c'), ('strtol, strtoul, strtoll, strtoull', 'lib/src/stdlib.c'), ('atoi, atol, atoll', 'lib/src/stdlib.c')],
 'Proof by loop invariants and a ghost fold of the digits, strings of any length (below 8 MB). The quick tier proves strtoll/strtoull for bases 0, 8, 10 and 16 only; the thorough tier for every base. A counterexample is searched with bounded strings when a proof fails.' + TR)
