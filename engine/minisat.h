#ifdef __cplusplus
extern "C" {
#endif
void *ms_new(void);
void ms_free(void *p);
int ms_newvar(void *p);
void ms_setdec(void *p, int *vs, int n, int on);
int ms_clause1(void *p, int a);
int ms_clause2(void *p, int a, int b);
int ms_clause3(void *p, int a, int b, int c);
int ms_and(void *p, int n, int a, int b);
int ms_solve(void *p, int *as, int n, long long confl);
void ms_interrupt(void *p);
int ms_model(void *p, int v);
void ms_copymodel(void *p, char *out, int n);
long long ms_conflicts(void *p);
#ifdef __cplusplus
}
#endif
