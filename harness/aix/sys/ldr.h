/* loadquery() of AIX on the scripted loader (fakeaix.c) */
#ifndef FK_LDR_H
#define FK_LDR_H
#define L_GETINFO 2
struct ld_info {
    unsigned int ldinfo_next;
    int ldinfo_fd;
    void *ldinfo_textorg;
    unsigned long ldinfo_textsize;
    void *ldinfo_dataorg;
    unsigned long ldinfo_datasize;
    char ldinfo_filename[2];
};
#ifdef __cplusplus
extern "C"
#endif
int fk_loadquery(int, void *, unsigned int);
#define loadquery fk_loadquery
#endif
