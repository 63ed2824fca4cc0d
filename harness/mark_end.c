char verif_data_end[64] __attribute__((aligned(64))) = {1};
char verif_bss_end[64] __attribute__((aligned(64)));
