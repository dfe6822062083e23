// zlib as the PBF writer uses it: what it makes of the data is up to the specification
#ifndef VF_ZLIB_H
#define VF_ZLIB_H
#include <stddef.h>
#define Z_OK 0
#define Z_STREAM_END 1
#define Z_FINISH 4
#define Z_DEFAULT_COMPRESSION (-1)
#define Z_NULL 0
struct z_stream { unsigned char* next_in; unsigned avail_in; unsigned long total_in; unsigned char* next_out; unsigned avail_out; unsigned long total_out; const char* msg; void *zalloc, *zfree, *opaque; };
int deflateInit(z_stream*, int level); int deflate(z_stream*, int flush); int deflateEnd(z_stream*);
#endif
