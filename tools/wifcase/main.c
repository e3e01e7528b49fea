/* Searches two WIFs with valid checksums that differ only in letter case,
   for data/corpus.json.  Not run by any check.
   usage: wifcase WIF  (uncompressed, valid) */
#include <stdint.h>
#include <stdio.h>
#include <string.h>
#include <ctype.h>
#include <pthread.h>
#include <stdlib.h>
static const uint32_t K[64]={0x428a2f98,0x71374491,0xb5c0fbcf,0xe9b5dba5,0x3956c25b,0x59f111f1,0x923f82a4,0xab1c5ed5,0xd807aa98,0x12835b01,0x243185be,0x550c7dc3,0x72be5d74,0x80deb1fe,0x9bdc06a7,0xc19bf174,0xe49b69c1,0xefbe4786,0x0fc19dc6,0x240ca1cc,0x2de92c6f,0x4a7484aa,0x5cb0a9dc,0x76f988da,0x983e5152,0xa831c66d,0xb00327c8,0xbf597fc7,0xc6e00bf3,0xd5a79147,0x06ca6351,0x14292967,0x27b70a85,0x2e1b2138,0x4d2c6dfc,0x53380d13,0x650a7354,0x766a0abb,0x81c2c92e,0x92722c85,0xa2bfe8a1,0xa81a664b,0xc24b8b70,0xc76c51a3,0xd192e819,0xd6990624,0xf40e3585,0x106aa070,0x19a4c116,0x1e376c08,0x2748774c,0x34b0bcb5,0x391c0cb3,0x4ed8aa4a,0x5b9cca4f,0x682e6ff3,0x748f82ee,0x78a5636f,0x84c87814,0x8cc70208,0x90befffa,0xa4506ceb,0xbef9a3f7,0xc67178f2};
#define R(x,n) ((x)>>(n)|(x)<<(32-(n)))
static void blk(const uint32_t*m,uint32_t*h){uint32_t w[64];memcpy(w,m,64);for(int i=16;i<64;i++){uint32_t a=w[i-15],b=w[i-2];w[i]=w[i-16]+(R(a,7)^R(a,18)^a>>3)+w[i-7]+(R(b,17)^R(b,19)^b>>10);}
uint32_t a=0x6a09e667,b=0xbb67ae85,c=0x3c6ef372,d=0xa54ff53a,e=0x510e527f,f=0x9b05688c,g=0x1f83d9ab,q=0x5be0cd19;
for(int i=0;i<64;i++){uint32_t t=q+(R(e,6)^R(e,11)^R(e,25))+((e&f)^(~e&g))+K[i]+w[i],u=(R(a,2)^R(a,13)^R(a,22))+((a&b)^(a&c)^(b&c));q=g;g=f;f=e;e=d+t;d=c;c=b;b=a;a=t+u;}
h[0]=a+0x6a09e667;h[1]=b+0xbb67ae85;h[2]=c+0x3c6ef372;h[3]=d+0xa54ff53a;h[4]=e+0x510e527f;h[5]=f+0x9b05688c;h[6]=g+0x1f83d9ab;h[7]=q+0x5be0cd19;}
static const char*A="123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz";
/* numbers: 10 limbs of 32 bits, least significant first; 37 bytes = 296 bits */
typedef struct{uint32_t l[10];}num;
static void mulsmall(num*n,uint32_t m,uint32_t a){uint64_t c=a;for(int i=0;i<10;i++){c+=(uint64_t)n->l[i]*m;n->l[i]=c;c>>=32;}}
static inline void addn(num*a,const num*b){uint64_t c=0;for(int i=0;i<10;i++){c+=(uint64_t)a->l[i]+b->l[i];a->l[i]=c;c>>=32;}}
static inline void neg(num*a){uint64_t c=1;for(int i=0;i<10;i++){c+=(uint32_t)~a->l[i];a->l[i]=c;c>>=32;}}
static num dec(const char*s){num n;memset(&n,0,sizeof n);for(;*s;s++)mulsmall(&n,58,strchr(A,*s)-A);return n;}
static int ok(const num*n){ /* payload bytes: limbs 1..9 (33 bytes: limb9 has the top byte) */
 uint32_t m[16]={0},h[8];
 for(int i=0;i<8;i++)m[i]=(n->l[9-i]<<24)|(n->l[8-i]>>8);
 m[8]=(n->l[1]<<24)|0x800000;m[15]=33*8;blk(m,h);
 memcpy(m,h,32);m[8]=0x80000000;memset(m+9,0,28);m[15]=256;blk(m,h);return h[0]==n->l[0];}
static char base[64];static int pos[64],np;static num delta[64];
static num bnum;
static void*run(void*v){int t=(int)(intptr_t)v;num n=bnum;unsigned char st[64]={0};
 for(int i=0;i<3;i++)if(t>>i&1){addn(&n,&delta[i]);st[i]=1;}
 /* gray code over positions 3..np-1 */
 num d[64];for(int i=0;i<np;i++)d[i]=delta[i];
 for(uint64_t c=1;c<(1ull<<(np-3));c++){int b=__builtin_ctzll(c)+3;addn(&n,&d[b]);neg(&d[b]);st[b]^=1;
  if(ok(&n)){char s[64];strcpy(s,base);for(int i=0;i<np;i++)if(st[i])s[pos[i]]=isupper(s[pos[i]])?tolower(s[pos[i]]):toupper(s[pos[i]]);printf("%s\n%s\n",base,s);fflush(stdout);exit(0);}}
 return 0;}
int main(int c,char**v){strcpy(base,v[1]);bnum=dec(base);if(!ok(&bnum)){puts("not valid");return 1;}
 int L=strlen(base);for(int i=L-1;i>=4&&np<40;i--){char x=base[i];if(!isalpha(x))continue;char y=isupper(x)?tolower(x):toupper(x);if(!strchr(A,y))continue;
  char s[64];strcpy(s,base);s[i]=y;num a=dec(s),b=bnum;neg(&b);addn(&a,&b);delta[np]=a;pos[np++]=i;}
 fprintf(stderr,"%d positions\n",np);pthread_t p[8];for(int i=0;i<8;i++)pthread_create(&p[i],0,run,(void*)(intptr_t)i);for(int i=0;i<8;i++)pthread_join(p[i],0);puts("none");}
