char vt_bss_hi[16];
char vt_data_hi[16] = {1};
void vt_text_hi(void);
void vt_text_hi(void) { }
