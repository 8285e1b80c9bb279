// Included before objfile.cc: its C library calls go to the stand-ins of c27.cpp.
#include <cctype>
#include <cerrno>
#include <climits>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <getopt.h>
#include <string>
#include <sys/types.h>
#include <vector>
extern "C" {
void xo_exit(int) __attribute__((noreturn));
extern int xo_optind;
extern char *xo_optarg;
int xo_getopt(int, char *const *, const char *);
FILE *xo_fopen(const char *, const char *);
int xo_fclose(FILE *);
ssize_t xo_getline(char **, size_t *, FILE *);
long xo_strtol(const char *, char **, int);
int xo_atoi(const char *);
int xo_printf(const char *, ...);
int xo_fprintf(FILE *, const char *, ...);
int xo_puts(const char *);
int xo_fputs(const char *, FILE *);
int xo_putchar(int);
void xo_perror(const char *);
void xo_number(long);
}
namespace std { inline string xo_to_string(long v) { xo_number(v); return "\1"; } }
#undef putchar
#define exit xo_exit
#define optind xo_optind
#define optarg xo_optarg
#define getopt xo_getopt
#define fopen xo_fopen
#define fclose xo_fclose
#define getline xo_getline
#define strtol xo_strtol
#define atoi xo_atoi
#define printf xo_printf
#define fprintf xo_fprintf
#define puts xo_puts
#define fputs xo_fputs
#define putchar xo_putchar
#define perror xo_perror
#define to_string xo_to_string
