/* The frozen reference copy (ref/lib) is compiled with its public symbols renamed to ref_*. */
#pragma once
#include <stddef.h>
#ifdef __cplusplus
extern "C" {
#endif
size_t ref_reiconv_name_canonicalize(const char *, char *);
int ref_reiconv_lookup_from_name(const char *);
int ref_reiconv_lookup_from_codepage(int);
void *ref_reiconv_open_from_index(int, int, int);
void *ref_reiconv_open_from_codepage(int, int, int);
void *ref_reiconv_open_from_name(const char *, const char *, int);
void *ref_reiconv_open(const char *, const char *);
size_t ref_reiconv_iconv(void *, char **, size_t *, char **, size_t *);
int ref_reiconv_handle_close(void *);
size_t ref_reiconv_result_size(void *, const char *, size_t);
int ref_reiconv_convert_static_size(void *, const char *, size_t, char *, size_t);
int ref_reiconv_convert(void *, const char *, size_t, char **, size_t *);
#ifdef __cplusplus
}
#endif
