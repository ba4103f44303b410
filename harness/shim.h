/* Force-included into the repository's sources (and the harnesses): every libc
   facility whose behaviour matters to a property is redirected to a model in
   libc.c, in the symbolic build and in the native replay build alike.  String
   functions are redirected in the symbolic build only. */
#ifndef SHIM_H
#define SHIM_H
#ifndef _GNU_SOURCE
#define _GNU_SOURCE 1
#endif
#include <argp.h>
#include <ctype.h>
#include <errno.h>
#include <inttypes.h>
#include <limits.h>
#include <locale.h>
#include <stdarg.h>
#include <stdbool.h>
#include <stddef.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <strings.h>
#include <unistd.h>
#include <sys/types.h>

typedef struct gx_file GX_FILE;
GX_FILE *gx_fopen(const char *, const char *);
int gx_fclose(GX_FILE *);
int gx_fflush(GX_FILE *);
int gx_fseek(GX_FILE *, long, int);
long gx_ftell(GX_FILE *);
void gx_rewind(GX_FILE *);
int gx_fputc(int, GX_FILE *);
int gx_fgetc(GX_FILE *);
int gx_ungetc(int, GX_FILE *);
int gx_feof(GX_FILE *);
int gx_ferror(GX_FILE *);
void gx_clearerr(GX_FILE *);
char *gx_fgets(char *, int, GX_FILE *);
size_t gx_fwrite(const void *, size_t, size_t, GX_FILE *);
size_t gx_fread(void *, size_t, size_t, GX_FILE *);
ssize_t gx_getline(char **, size_t *, GX_FILE *);
int gx_fputs(const char *, GX_FILE *);
int gx_puts(const char *);
int gx_putchar(int);
int gx_printf(const char *, ...);
int gx_fprintf(GX_FILE *, const char *, ...);
int gx_vfprintf(GX_FILE *, const char *, va_list);
int gx_vprintf(const char *, va_list);
int gx_snprintf(char *, size_t, const char *, ...);
int gx_vsnprintf(char *, size_t, const char *, va_list);
int gx_sprintf(char *, const char *, ...);
void gx_perror(const char *);
int gx_remove(const char *);
int gx_setvbuf(GX_FILE *, char *, int, size_t);
char *gx_setlocale(int, const char *);
char *gx_strerror(int);
char *gx_getenv(const char *);
extern GX_FILE *gx_stdout, *gx_stderr, *gx_stdin;
void *gx_malloc(size_t);
void *gx_calloc(size_t, size_t);
void *gx_realloc(void *, size_t);
void gx_free(void *);
char *gx_strdup(const char *);
char *gx_strndup(const char *, size_t);
void gx_exit(int) __attribute__((noreturn));
error_t gx_argp_parse(const struct argp *, int, char **, unsigned, int *, void *);
void gx_argp_usage(const struct argp_state *);
void gx_argp_error(const struct argp_state *, const char *, ...);
void gx_argp_failure(const struct argp_state *, int, int, const char *, ...);
void gx_argp_state_help(const struct argp_state *, GX_FILE *, unsigned);
int gx_isalpha(int), gx_isalnum(int), gx_isdigit(int), gx_isxdigit(int), gx_isspace(int), gx_isupper(int),
    gx_islower(int), gx_ispunct(int), gx_isprint(int), gx_isblank(int), gx_iscntrl(int), gx_isgraph(int),
    gx_toupper(int), gx_tolower(int);

#undef stdin
#undef stdout
#undef stderr
#undef feof
#undef ferror
#undef putchar
#undef putc
#undef getc
#undef fputc
#undef fgetc
#define FILE GX_FILE
#define stdin gx_stdin
#define stdout gx_stdout
#define stderr gx_stderr
#define fopen gx_fopen
#define fclose gx_fclose
#define fflush gx_fflush
#define fseek gx_fseek
#define fseeko gx_fseek
#define ftell gx_ftell
#define ftello gx_ftell
#define rewind gx_rewind
#define fputc gx_fputc
#define putc gx_fputc
#define putc_unlocked gx_fputc
#define fgetc gx_fgetc
#define getc gx_fgetc
#define ungetc gx_ungetc
#define feof gx_feof
#define ferror gx_ferror
#define clearerr gx_clearerr
#define fgets gx_fgets
#define fwrite gx_fwrite
#define fread gx_fread
#define getline gx_getline
#define fputs gx_fputs
#define puts gx_puts
#define putchar gx_putchar
#define printf gx_printf
#define fprintf gx_fprintf
#define vfprintf gx_vfprintf
#define vprintf gx_vprintf
#define snprintf gx_snprintf
#define vsnprintf gx_vsnprintf
#define sprintf gx_sprintf
#define perror gx_perror
#define remove gx_remove
#define setvbuf gx_setvbuf
#define setlocale gx_setlocale
#define strerror gx_strerror
#define getenv gx_getenv
#define unlink gx_remove
#define malloc gx_malloc
#define calloc gx_calloc
#define realloc gx_realloc
#define free gx_free
#undef strdup
#undef strndup
#define strdup gx_strdup
#define strndup gx_strndup
#define exit gx_exit
#define argp_parse gx_argp_parse
#define argp_usage gx_argp_usage
#define argp_error gx_argp_error
#define argp_failure gx_argp_failure
#define argp_state_help gx_argp_state_help
#undef isalpha
#undef isalnum
#undef isdigit
#undef isxdigit
#undef isspace
#undef isupper
#undef islower
#undef ispunct
#undef isprint
#undef isblank
#undef iscntrl
#undef isgraph
#undef toupper
#undef tolower
#define isalpha gx_isalpha
#define isalnum gx_isalnum
#define isdigit gx_isdigit
#define isxdigit gx_isxdigit
#define isspace gx_isspace
#define isupper gx_isupper
#define islower gx_islower
#define ispunct gx_ispunct
#define isprint gx_isprint
#define isblank gx_isblank
#define iscntrl gx_iscntrl
#define isgraph gx_isgraph
#define toupper gx_toupper
#define tolower gx_tolower
#ifdef GX_SYMBOLIC
size_t gx_strlen(const char *);
size_t gx_strnlen(const char *, size_t);
char *gx_strcpy(char *, const char *);
char *gx_strncpy(char *, const char *, size_t);
char *gx_strcat(char *, const char *);
char *gx_strncat(char *, const char *, size_t);
char *gx_strchr(const char *, int);
char *gx_strrchr(const char *, int);
char *gx_strstr(const char *, const char *);
char *gx_strpbrk(const char *, const char *);
size_t gx_strspn(const char *, const char *);
size_t gx_strcspn(const char *, const char *);
int gx_strcasecmp(const char *, const char *);
int gx_strncasecmp(const char *, const char *, size_t);
void *gx_memchr(const void *, int, size_t);
char *gx_stpcpy(char *, const char *);
unsigned long gx_strtoul(const char *, char **, int);
long gx_strtol(const char *, char **, int);
int gx_atoi(const char *);
void *gx_bsearch(const void *, const void *, size_t, size_t, int (*)(const void *, const void *));
void gx_qsort(void *, size_t, size_t, int (*)(const void *, const void *));
#define strlen gx_strlen
#define strnlen gx_strnlen
#define strcpy gx_strcpy
#define stpcpy gx_stpcpy
#define strncpy gx_strncpy
#define strcat gx_strcat
#define strncat gx_strncat
#define strchr gx_strchr
#define strrchr gx_strrchr
#define strstr gx_strstr
#define strpbrk gx_strpbrk
#define strspn gx_strspn
#define strcspn gx_strcspn
#define strcasecmp gx_strcasecmp
#define strncasecmp gx_strncasecmp
#define memchr gx_memchr
#define strtoul gx_strtoul
#define strtoull gx_strtoul
#define strtol gx_strtol
#define strtoll gx_strtol
#define atoi gx_atoi
#define bsearch gx_bsearch
#define qsort gx_qsort
#endif
#endif
