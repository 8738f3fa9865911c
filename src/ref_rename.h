#define reiconv_version ref_reiconv_version
#define reiconv_name_canonicalize ref_reiconv_name_canonicalize
#define reiconv_lookup_from_name ref_reiconv_lookup_from_name
#define reiconv_lookup_from_codepage ref_reiconv_lookup_from_codepage
#define reiconv_open_from_index ref_reiconv_open_from_index
#define reiconv_open_from_codepage ref_reiconv_open_from_codepage
#define reiconv_open_from_name ref_reiconv_open_from_name
#define reiconv_open ref_reiconv_open
#define reiconv_iconv ref_reiconv_iconv
#define reiconv_handle_close ref_reiconv_handle_close
#define reiconv_result_size ref_reiconv_result_size
#define reiconv_convert_static_size ref_reiconv_convert_static_size
#define reiconv_convert ref_reiconv_convert
#define aliases_lookup ref_aliases_lookup
