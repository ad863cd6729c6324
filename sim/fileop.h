// GCM file operations of every cipher behind one interface (used by P03, P04, P05, P16, P17).
#pragma once
#include "lib.h"
struct FileCtx { int kind = -1; bool dec = false; void *h = nullptr; };
bool file_init(FileCtx &c, Key &k, bool dec);                                     // inside lib(): create the library context
int file_setiv(FileCtx &c, const u8 *iv, size_t n);
int file_aad(FileCtx &c, const u8 *a, size_t n);
int file_run(FileCtx &c, char *in, char *out);
void file_free(FileCtx &c);
Bytes file_image(Key &k, const Bytes &iv, bool hasaad, const Bytes &aad, const Bytes &pt);   // what a correct encryption writes (reference; MASK: the library's in-memory stream, faults not armed)
// does file content f authenticate under these parameters, and what is its plaintext (not for MASK)
bool file_authentic(Key &k, const Bytes &iv, bool hasaad, const Bytes &aad, const Bytes &f, Bytes &pt);
