#ifndef DLSTUB_H
#define DLSTUB_H
#define DL_MAX 24
extern "C" {
typedef struct { char path[512]; int loadable, open, index; void *info, *create; } DlStub;
DlStub* dl_add();
extern int dl_count;
void dl_opened(DlStub*);
void dl_closed(DlStub*, int twice);
}
#endif
