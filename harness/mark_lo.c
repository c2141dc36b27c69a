/* linked directly before the objects under test: delimits their static data */
char vt_bss_lo[16];
char vt_data_lo[16] = {1};
void vt_text_lo(void);
void vt_text_lo(void) { }
