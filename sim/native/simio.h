#include <stdio.h>
#include <stdlib.h>
#include <string.h>
FILE* sim_fopen(const char*,const char*); size_t sim_fread(void*,size_t,size_t,FILE*); void* sim_malloc(size_t);
int sim_fseek(FILE*,long,int); size_t sim_fwrite(const void*,size_t,size_t,FILE*); int sim_fclose(FILE*);
#define fopen sim_fopen
#define fread sim_fread
#define malloc sim_malloc
#define fseek sim_fseek
#define fwrite sim_fwrite
#define fclose sim_fclose
