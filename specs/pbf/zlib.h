// zlib as the PBF reader uses it: what it makes of the data is up to the specification
#ifndef VF_ZLIB_H
#define VF_ZLIB_H
#define Z_OK 0
int uncompress(unsigned char* dest, unsigned long* destLen, const unsigned char* source, unsigned long sourceLen);
#endif
