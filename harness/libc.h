/* State of the modelled environment, set and read by the harnesses. */
#ifndef LIBC_H
#define LIBC_H
#include "shim.h"
#define SRC_MAX 300000
#define OUT_MAX 70000
#define TXT_MAX 150000
#define NFILES 12
/* the source file */
extern uint8_t src[SRC_MAX];
extern int src_n;
extern const char *src_name;
extern int src_missing; /* opening it fails */
/* everything written to files opened for writing, in order */
extern uint64_t out_pos[OUT_MAX];
extern uint8_t out_val[OUT_MAX];
extern uint8_t out_fd[OUT_MAX];
extern int out_n;
/* everything printed (stdout and stderr) */
extern uint8_t txt[TXT_MAX];
extern int txt_n;
/* opened files */
struct gx_file {
	int used, open, closes, rd, wr, app, kind; /* kind: 0 source, 1 output, 2 terminal */
	int eof, err, unget;
	uint64_t pos;
	int old; /* content from before the run that was not truncated */
	char name[5200];
};
extern struct gx_file gx_files[NFILES];
extern int gx_nfiles;
extern int gx_bad_close; /* fclose of a file that is not open */
/* faults: the n-th operation fails (0: never) */
extern int fi_alloc, fi_alloc_sticky;
extern int n_alloc;
extern int fi_read_at;    /* -1 never; else reading fails at this offset */
extern int fi_out_open;   /* opening the output fails */
extern int fi_write;      /* the n-th byte written fails, and all later ones */
extern int fi_flush;      /* buffered data is lost: reported by the n-th flush (fseek, fflush, fclose) */
extern int n_write, n_flush, n_fault;
/* called when the program exits */
extern void (*gx_on_exit)(int status, int by_exit);
void gx_reset_env(void);
#endif
