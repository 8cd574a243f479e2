typedef struct F FILE; extern FILE *stderr; int fprintf(FILE *, const char *, ...);
#include <sys/types.h>
