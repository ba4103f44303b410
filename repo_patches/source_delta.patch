From 166a0c7c24b37f631449e592c7b8105fa2e3efdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:04 +0000
Subject: [PATCH 01/13] fix: reject tokens after an indexed operand

---
 src/parser.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/parser.c b/src/parser.c
index 2a2bc35..e81a67a 100644
--- a/src/parser.c
+++ b/src/parser.c
@@ -111,8 +111,11 @@ int parse_instr_tree(struct Lexer *lexer, int index)
 			// OPERAND,X
 			// OPERAND,Y
 			if (seq[index]->type == TOKEN_X_REGISTER ||
-			    seq[index]->type == TOKEN_Y_REGISTER)
-				return PARSER_SUCCESS;
+			    seq[index]->type == TOKEN_Y_REGISTER) {
+				index++;
+				if (seq[index]->type == TOKEN_NULL)
+					return PARSER_SUCCESS;
+			}
 		}
 	}
 	// #
-- 
2.43.0


From 3fe2a9c3ea16acef4b1d5cd57c245c1d12863daa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:05 +0000
Subject: [PATCH 02/13] fix: reject literals that overflow the lexer's
 accumulator

---
 src/lexer.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/lexer.c b/src/lexer.c
index cfeecb7..5f134d5 100644
--- a/src/lexer.c
+++ b/src/lexer.c
@@ -359,6 +359,9 @@ int lex_literal(const char *literal, struct Token *tk)
 		if (char_value != ERROR_ILLEGAL_CHAR) {
 			total *= base;
 			total += char_value;
+			// stay above the 2-byte limit without wrapping around
+			if (total > 0xFFFF)
+				total = 0x10000;
 			num_chars++;
 			curr++;
 		} else if (!is_end_of_token(*curr)) {
-- 
2.43.0


From bb17d727a21bb8829125260ed5029518b95a1057 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:05 +0000
Subject: [PATCH 03/13] fix: reject forward references in addressing modes JMP
 does not have

---
 src/parser.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/parser.c b/src/parser.c
index e81a67a..7c89065 100644
--- a/src/parser.c
+++ b/src/parser.c
@@ -564,7 +564,9 @@ int parse_forward_ref_addr_mode(struct Lexer *lexer, struct Instruction *instr)
 		instr->addr_bitflag = addr_mode & ADDR_MODE_RELATIVE;
 	} else if (instr->mnemonic == JMP) {
 		// JMP has two modes, so we AND with the FIELD!!!
-		instr->addr_bitflag = addr_mode & ABSOLUTE_FIELD;
+		// the bitfield rejects the modes that JMP doesn't have
+		instr->addr_bitflag = addr_mode & ABSOLUTE_FIELD &
+		                      instr->addr_bitfield;
 	} else if (instr->mnemonic == JSR) {
 		// JSR has only one mode
 		instr->addr_bitflag = addr_mode & ADDR_MODE_ABSOLUTE;
-- 
2.43.0


From cd010d63c88d937a806f45aa7074bc4724a8b8ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:06 +0000
Subject: [PATCH 04/13] fix: do not write forward reference placeholders at the
 file position

---
 src/main.c | 10 ----------
 1 file changed, 10 deletions(-)

diff --git a/src/main.c b/src/main.c
index a2dcd8f..fd581a9 100644
--- a/src/main.c
+++ b/src/main.c
@@ -217,10 +217,6 @@ int main(int argc, char *argv[])
 		                               symtab);
 		if (IS_ERROR(operand_status))
 			ABORT_ASSEMBLY();
-		else if (operand_status == BRANCH_FORWARD_REFERENCE)
-			written_bytes = 2;
-		else if (operand_status == JUMP_FORWARD_REFERENCE)
-			written_bytes = 3;
 
 		return_code = parse_addr_mode(lexer, instr, operand,
 		                             operand_status);
@@ -232,12 +228,6 @@ int main(int argc, char *argv[])
 				ABORT_ASSEMBLY();
 			if (IS_ERROR(add_forward_ref(unresolved, ref)))
 				ABORT_ASSEMBLY();
-
-			// write dummy bytes
-			fputc(0x00, outf);
-			fputc(0x00, outf);
-			if (written_bytes == 3)
-				fputc(0x00, outf);
 		} else if (IS_ERROR(return_code)) {
 			ABORT_ASSEMBLY();
 		}
-- 
2.43.0


From e485c22b96a0d634671981828b0d496c81aa11ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:06 +0000
Subject: [PATCH 05/13] fix: report source lines with too many tokens

---
 src/main.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/main.c b/src/main.c
index fd581a9..ff7863a 100644
--- a/src/main.c
+++ b/src/main.c
@@ -187,7 +187,9 @@ int main(int argc, char *argv[])
 	int total_bytes = 0;
 	while (fgets(buffer, MAX_BUFFER_SIZE, inf)) {
 		return_code = lex_line(buffer, lexer, tk, instr, line_num);
-		if (IS_ERROR(return_code))
+		// too many tokens: parse_line() reports the first bad one
+		if (IS_ERROR(return_code) &&
+		    return_code != ERROR_TOO_MANY_TOKENS)
 			ABORT_ASSEMBLY();
 
 		return_code = parse_line(lexer);
-- 
2.43.0


From 4a4399407d280dd54bddb1ba8fbd2033f22d061f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:07 +0000
Subject: [PATCH 06/13] fix: reject branch offsets that do not fit in one byte

---
 src/parser.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parser.c b/src/parser.c
index 7c89065..2262533 100644
--- a/src/parser.c
+++ b/src/parser.c
@@ -638,9 +638,9 @@ int parse_addr_mode(struct Lexer *lexer, struct Instruction *instr,
 		addr_mode &= ADDR_MODE_ACCUMULATOR;
 	} else if (operand->value > 0xFF) {
 		// see comment above in parse_label_operand()
-		// operand value might be an absolute address, but a branch
+		// a label's value might be an absolute address, but a branch
 		// instruction always has an operand that fits in 1 byte
-		if (!is_branch(instr->mnemonic))
+		if (operand_status != BRANCH_OPERAND)
 			addr_mode = ABSOLUTE_FIELD;
 		else
 			addr_mode = ZERO_PAGE_FIELD;
-- 
2.43.0


From 01d8b6e99d257f05f7ad2477d5867329e57a8fea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:07 +0000
Subject: [PATCH 07/13] fix: read source lines of any length

---
 src/main.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/main.c b/src/main.c
index ff7863a..8224f2e 100644
--- a/src/main.c
+++ b/src/main.c
@@ -4,6 +4,9 @@ The Gaia assembler for 6502 Assembly.
 
 */
 
+// for getline()
+#define _POSIX_C_SOURCE 200809L
+
 #include <argp.h>
 #include <stdio.h>
 #include <stdlib.h>
@@ -91,6 +94,7 @@ error_t parse_opt(int key, char *arg, struct argp_state *state)
 */
 #define ABORT_ASSEMBLY()                                                     \
 	do {                                                                 \
+		free(buffer);                                                \
 		abort_gaia(inf, outf, lexer, tk, instr, symtab, unresolved); \
 		return EXIT_FAILURE;                                         \
 	} while (0)
@@ -103,8 +107,6 @@ error_t parse_opt(int key, char *arg, struct argp_state *state)
 */
 #define IS_ERROR(code) ((code) < 0)
 
-#define MAX_BUFFER_SIZE 128
-
 /* abort_gaia()
 	@inf            source file
 	@outf           assembled binary file
@@ -151,6 +153,8 @@ int main(int argc, char *argv[])
 
 	FILE *inf = NULL;
 	FILE *outf = NULL;
+	char *buffer = NULL;
+	size_t buffer_size = 0;
 	struct Lexer *lexer = init_lexer(args.src_file);
 	struct Token *tk = init_token();
 	struct Instruction *instr = init_instruction();
@@ -175,7 +179,6 @@ int main(int argc, char *argv[])
 		ABORT_ASSEMBLY();
 	}
 
-	char buffer[MAX_BUFFER_SIZE];
 	int line_num = 1;
 	int return_code;
 	int pc = 0x0;
@@ -185,7 +188,7 @@ int main(int argc, char *argv[])
 	int written_bytes = 0;
 	struct ForwardRef *ref;
 	int total_bytes = 0;
-	while (fgets(buffer, MAX_BUFFER_SIZE, inf)) {
+	while (getline(&buffer, &buffer_size, inf) != -1) {
 		return_code = lex_line(buffer, lexer, tk, instr, line_num);
 		// too many tokens: parse_line() reports the first bad one
 		if (IS_ERROR(return_code) &&
@@ -274,6 +277,7 @@ int main(int argc, char *argv[])
 
 	fclose(inf);
 	fclose(outf);
+	free(buffer);
 	destroy_lexer(lexer);
 	destroy_token(tk);
 	destroy_instruction(instr);
-- 
2.43.0


From 3edb6309ba60881e7811b03baeaf4d224c9b654d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:08 +0000
Subject: [PATCH 08/13] fix: report failed reads of the source and failed
 writes of the binary

---
 src/main.c | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/src/main.c b/src/main.c
index 8224f2e..476f457 100644
--- a/src/main.c
+++ b/src/main.c
@@ -188,7 +188,8 @@ int main(int argc, char *argv[])
 	int written_bytes = 0;
 	struct ForwardRef *ref;
 	int total_bytes = 0;
-	while (getline(&buffer, &buffer_size, inf) != -1) {
+	ssize_t line_length;
+	while ((line_length = getline(&buffer, &buffer_size, inf)) != -1) {
 		return_code = lex_line(buffer, lexer, tk, instr, line_num);
 		// too many tokens: parse_line() reports the first bad one
 		if (IS_ERROR(return_code) &&
@@ -254,6 +255,13 @@ int main(int argc, char *argv[])
 		total_bytes += written_bytes;
 	}
 
+	// the source could not be read until its end
+	if (line_length == -1 && !feof(inf)) {
+		print_error(NULL, ERROR_FILE_OPEN_FAIL, NULL, args.src_file,
+		            -1);
+		ABORT_ASSEMBLY();
+	}
+
 	int dest_pc;
 	for (int i = 0; i < unresolved->curr; i++) {
 		ref = unresolved->refs[i];
@@ -271,12 +279,22 @@ int main(int argc, char *argv[])
 			ABORT_ASSEMBLY();
 	}
 
+	// the binary file is complete only if all its bytes were written
+	int write_failed = ferror(outf);
+	if (fclose(outf) != 0)
+		write_failed = 1;
+	outf = NULL;
+	if (write_failed) {
+		print_error(NULL, ERROR_BINARY_FILE_CREATION_FAIL, NULL,
+		            args.src_file, -1);
+		ABORT_ASSEMBLY();
+	}
+
 	printf("Assembly successful.\n");
 	printf("%i (0x%04x) bytes assembled.\n", total_bytes, total_bytes);
 	printf("%i symbols.\n", symtab->count);
 
 	fclose(inf);
-	fclose(outf);
 	free(buffer);
 	destroy_lexer(lexer);
 	destroy_token(tk);
-- 
2.43.0


From 08b9e83c9f43b1d4a1a89a02a0117f24da6747a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:54 +0000
Subject: [PATCH 09/13] fix: reject code and labels beyond the 64K address
 space

---
 src/error.c  | 4 ++++
 src/error.h  | 1 +
 src/main.c   | 8 +++++++-
 src/parser.c | 7 +++++++
 4 files changed, 19 insertions(+), 1 deletion(-)

diff --git a/src/error.c b/src/error.c
index 4bc501b..5bfba91 100644
--- a/src/error.c
+++ b/src/error.c
@@ -29,6 +29,7 @@ printed, which is aligned to the error in the source line.
 		ERROR_UNKNOWN
 		ERROR_ILLEGAL_ADDRESSING_MODE
 		ERROR_TOO_BIG_OFFSET
+		ERROR_OUT_OF_ADDRESS_SPACE
 */
 void print_error(const char *line, int error_code, const char *bad_char,
                  const char *file_name, int line_num)
@@ -86,6 +87,9 @@ void print_error(const char *line, int error_code, const char *bad_char,
 	case ERROR_ILLEGAL_BASE:
 		printf("ERROR: illegal base\n");
 		break;
+	case ERROR_OUT_OF_ADDRESS_SPACE:
+		printf("ERROR: code exceeds the 64K address space\n");
+		break;
 	default:
 		return;
 	}
diff --git a/src/error.h b/src/error.h
index 6fe0355..560c791 100644
--- a/src/error.h
+++ b/src/error.h
@@ -39,6 +39,7 @@ Error codes used by the assembler. Also a prototype to print error messages.
 #define ERROR_MISSING_LABEL_DEFINITION  -18
 #define ERROR_ILLEGAL_DIRECTIVE         -19
 #define ERROR_ILLEGAL_BASE              -20
+#define ERROR_OUT_OF_ADDRESS_SPACE      -21
 /*
 ;       ;       ;       ;       ;       ;
 */
diff --git a/src/main.c b/src/main.c
index 476f457..6bd3ed2 100644
--- a/src/main.c
+++ b/src/main.c
@@ -250,9 +250,15 @@ int main(int argc, char *argv[])
 		if (IS_ERROR(written_bytes))
 			ABORT_ASSEMBLY();
 
-		line_num++;
 		pc += written_bytes;
+		// pc may be 0x10000 after the last byte of memory
+		if (pc > 0x10000) {
+			print_error(buffer, ERROR_OUT_OF_ADDRESS_SPACE, NULL,
+			            args.src_file, line_num);
+			ABORT_ASSEMBLY();
+		}
 		total_bytes += written_bytes;
+		line_num++;
 	}
 
 	// the source could not be read until its end
diff --git a/src/parser.c b/src/parser.c
index 2262533..3183a8b 100644
--- a/src/parser.c
+++ b/src/parser.c
@@ -324,6 +324,13 @@ int parse_label_declaration(struct Lexer *lexer, struct SymbolTable *symtab,
 			            lexer->error_tk->buffer_location,
 			            lexer->file_name, lexer->line_num);
 			return ERROR_LABEL_REDEFINITION;
+		} else if (pc > 0xFFFF) {
+			// the code filled the memory up to its last byte
+			lexer->error_tk = label;
+			print_error(lexer->line, ERROR_OUT_OF_ADDRESS_SPACE,
+			            lexer->error_tk->buffer_location,
+			            lexer->file_name, lexer->line_num);
+			return ERROR_OUT_OF_ADDRESS_SPACE;
 		} else {
 			label->value = pc;
 			return insert_symbol(symtab, label->str, label->value);
-- 
2.43.0


From 3e9751a6edd8cdb531428c3970c9f99fa3fbc451 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:54 +0000
Subject: [PATCH 10/13] fix: report allocation failures during assembly

---
 src/main.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/main.c b/src/main.c
index 6bd3ed2..d680e54 100644
--- a/src/main.c
+++ b/src/main.c
@@ -204,6 +204,9 @@ int main(int argc, char *argv[])
 		if (first->type == TOKEN_LABEL ||
 		    first->type == TOKEN_DEFINE_DIRECTIVE) {
 			return_code = parse_label_declaration(lexer, symtab, pc);
+			if (return_code == ERROR_MEMORY_ALLOCATION_FAIL)
+				print_error(NULL, return_code, NULL,
+				            args.src_file, -1);
 			if (IS_ERROR(return_code))
 				ABORT_ASSEMBLY();
 		} else if (first->type == TOKEN_BASE ||
@@ -230,10 +233,11 @@ int main(int argc, char *argv[])
 			ref = create_forward_ref(buffer, instr, operand,
 			                         operand_status, pc,
 			                         line_num);
-			if (!ref)
-				ABORT_ASSEMBLY();
-			if (IS_ERROR(add_forward_ref(unresolved, ref)))
+			if (!ref || IS_ERROR(add_forward_ref(unresolved, ref))) {
+				print_error(NULL, ERROR_MEMORY_ALLOCATION_FAIL,
+				            NULL, args.src_file, -1);
 				ABORT_ASSEMBLY();
+			}
 		} else if (IS_ERROR(return_code)) {
 			ABORT_ASSEMBLY();
 		}
-- 
2.43.0


From d29a44718ab3825ae3b3225e258b9a9caf683c39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:42 +0000
Subject: [PATCH 11/13] fix: quote source lines without CR, whole, and read
 nothing before the line

print_error() kept the carriage return of a CRLF line, dropped trailing 0xFF
bytes (compared with EOF), and scanned backwards beyond the beginning of a
line made of such bytes only.
---
 src/error.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/error.c b/src/error.c
index 5bfba91..418ce15 100644
--- a/src/error.c
+++ b/src/error.c
@@ -100,10 +100,11 @@ void print_error(const char *line, int error_code, const char *bad_char,
 	}
 
 	// skip trailing whitespace
-	const char *end = line + strlen(line) - 1;
-	while (*end == ' ' || *end == '\t' || *end == '\n' || *end == EOF)
+	const char *end = line + strlen(line);
+	while (end > line && (end[-1] == ' ' || end[-1] == '\t' ||
+	       end[-1] == '\n' || end[-1] == '\r'))
 		end--;
-	for (const char *start = line; start <= end; start++)
+	for (const char *start = line; start < end; start++)
 		putchar(*start);
 	putchar('\n');
 
-- 
2.43.0


From a169e41d0096ea443c6f9c4ad4d73252d151127b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:40 +0000
Subject: [PATCH 12/13] fix: report a read error that cuts the last line read

getline() returns the characters read before an error, so a line cut to
'.END' ended the assembly with success.
---
 src/main.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main.c b/src/main.c
index d680e54..defaabf 100644
--- a/src/main.c
+++ b/src/main.c
@@ -266,7 +266,7 @@ int main(int argc, char *argv[])
 	}
 
 	// the source could not be read until its end
-	if (line_length == -1 && !feof(inf)) {
+	if (ferror(inf) || (line_length == -1 && !feof(inf))) {
 		print_error(NULL, ERROR_FILE_OPEN_FAIL, NULL, args.src_file,
 		            -1);
 		ABORT_ASSEMBLY();
-- 
2.43.0


From eea74f46bca573896fbc75e855a051c423755bf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:37 +0000
Subject: [PATCH 13/13] fix: terminate the list of command line options

argp_parse() reads the array until an element of zeros, which was
missing: it read what the linker put behind the array.
---
 src/main.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/main.c b/src/main.c
index defaabf..80a1d0e 100644
--- a/src/main.c
+++ b/src/main.c
@@ -27,7 +27,9 @@ static char *doc = "Gaia assembles a 6502 source code file into a binary file.";
 // array of cmdline options
 static struct argp_option options[] = {
 	{"output", 'o', "FILE", 0, "Place assembled binary into <FILE>", 0},
-	// {"cmos",   'c', NULL,   0, "Use 65C02 opcodes",                  0}
+	// {"cmos",   'c', NULL,   0, "Use 65C02 opcodes",                  0},
+	// argp reads the options up to an element of zeros
+	{0}
 };
 
 // struct used as storage for arg_parse()
-- 
2.43.0

