/* prints its arguments and environment, hex coded */
#include <stdio.h>
#include <string.h>
extern char **environ;
static void put(const char *s){ if(!*s) printf("-"); for(;*s;s++) printf("%02x",(unsigned char)*s); printf("\n"); }
int main(int argc,char**argv){ printf("argc %d\n",argc); for(int i=0;argv[i];i++) put(argv[i]); printf("env\n"); for(char**e=environ;*e;e++) put(*e); printf("end\n"); return argc>1&&!strncmp(argv[1],"rc=",3)? (argv[1][3]-'0')*10+(argv[1][4]-'0') : 0; }
