/* Included before x1algc.c: its C library calls go to the stand-ins of xc.cpp. */
#include <ctype.h>
#include <errno.h>
#include <getopt.h>
#include <limits.h>
#include <setjmp.h>
#include <stdarg.h>
#include <stdbool.h>
#include <stddef.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/types.h>
#include <unistd.h>
void xc_exit(int) __attribute__((noreturn));
void xc_abort(void) __attribute__((noreturn));
extern int xc_optind, xc_opterr, xc_optopt;
extern char *xc_optarg;
int xc_getopt(int, char *const *, const char *);
FILE *xc_fopen(const char *, const char *);
int xc_fclose(FILE *), xc_fflush(FILE *), xc_feof(FILE *), xc_ferror(FILE *), xc_isatty(int), xc_fileno(FILE *), xc_getc(FILE *), xc_fgetc(FILE *), xc_ungetc(int, FILE *);
long xc_ftell(FILE *);
ssize_t xc_getline(char **, size_t *, FILE *);
char *xc_fgets(char *, int, FILE *);
int xc_fscanf(FILE *, const char *, ...), xc_printf(const char *, ...), xc_fprintf(FILE *, const char *, ...);
int xc_vprintf(const char *, va_list), xc_vfprintf(FILE *, const char *, va_list);
int xc_putchar(int), xc_putc(int, FILE *), xc_fputc(int, FILE *), xc_puts(const char *), xc_fputs(const char *, FILE *);
size_t xc_fwrite(const void *, size_t, size_t, FILE *);
void xc_perror(const char *);
extern FILE *xc_stdin, *xc_stdout, *xc_stderr;
#undef getc
#undef putc
#undef feof
#undef ferror
#undef putchar
#undef fileno
#undef stdin
#undef stdout
#undef stderr
#define exit xc_exit
#define _exit xc_exit
#define _Exit xc_exit
#define abort xc_abort
#define optind xc_optind
#define opterr xc_opterr
#define optopt xc_optopt
#define optarg xc_optarg
#define getopt xc_getopt
#define fopen xc_fopen
#define fclose xc_fclose
#define fflush xc_fflush
#define feof xc_feof
#define ferror xc_ferror
#define isatty xc_isatty
#define fileno xc_fileno
#define getc xc_getc
#define fgetc xc_fgetc
#define ungetc xc_ungetc
#define ftell xc_ftell
#define getline xc_getline
#define fgets xc_fgets
#define fscanf xc_fscanf
#define printf xc_printf
#define fprintf xc_fprintf
#define vprintf xc_vprintf
#define vfprintf xc_vfprintf
#define putchar xc_putchar
#define putc xc_putc
#define fputc xc_fputc
#define puts xc_puts
#define fputs xc_fputs
#define fwrite xc_fwrite
#define perror xc_perror
#define stdin xc_stdin
#define stdout xc_stdout
#define stderr xc_stderr
