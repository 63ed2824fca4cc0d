/* The code under test is linked between mark_begin and mark_end, so its variables lie between these. */
char verif_data_begin[64] __attribute__((aligned(64))) = {1};
char verif_bss_begin[64] __attribute__((aligned(64)));
