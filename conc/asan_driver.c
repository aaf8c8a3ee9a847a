/* calls one routine of c_functions.c per input record, each array in a heap block of its exact size */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
void findrfc(double *y1, double hmin, int *ind, int n, int *info);
void findcross(double *y, double v, int *ind, int n, int *info);
void disufq(double *, double *, double *, double *, double *, double *, double, double, int, int, int, int);
void disufq2(double *, double *, double *, double *, double *, double *, double *, double *, double, double, int, int, int, int);
void findrfc3_astm(double *, double *, int, int *);
void findrfc5_astm(double *, double *, double *, int, int *);
static double *rd(int n) {
    double *a = malloc(n * sizeof(double));
    for (int i = 0; i < n; i++) if (scanf("%lf", a + i) != 1) exit(3);
    return a;
}
static double *z(int n) { return calloc(n ? n : 0, sizeof(double)); }
int main(void) {
    char f[32];
    int n, m, nmin, nmax;
    double h, g;
    while (scanf("%31s", f) == 1) {
        if (!strcmp(f, "findcross") || !strcmp(f, "findrfc")) {
            if (scanf("%d %lf", &n, &h) != 2) return 3;
            double *y = rd(n);
            int *ind = malloc(n * sizeof(int)), *info = malloc(sizeof(int));
            info[0] = -9;
            if (f[4] == 'c') findcross(y, h, ind, n, info); else findrfc(y, h, ind, n, info);
            printf("ok %d", info[0]);
            if (info[0] > n) { printf(" too-many"); info[0] = n; }
            for (int i = 0; i < info[0]; i++) printf(" %d", ind[i]);
            printf("\n");
            free(y); free(ind); free(info);
        } else if (!strncmp(f, "findrfc", 7)) {
            int c = f[7] - '0';
            if (scanf("%d", &n) != 1) return 3;
            double *x = rd(n), *t = rd(n), *o = z(c * n);
            int *no = malloc(2 * sizeof(int));
            if (c == 3) findrfc3_astm(x, o, n, no); else findrfc5_astm(x, t, o, n, no);
            printf("ok %d %d\n", no[0], no[1]);
            free(x); free(t); free(o); free(no);
        } else {
            if (scanf("%d %d %d %d %lf %lf", &n, &m, &nmin, &nmax, &h, &g) != 6) return 3;
            double *a[8];
            a[4] = rd(n * m); a[5] = rd(n * m); a[6] = rd(n / 2 + 1); a[7] = rd(n / 2 + 1);
            for (int i = 0; i < 4; i++) a[i] = z(n * m);
            if (!strcmp(f, "disufq")) disufq(a[0], a[1], a[4], a[5], a[6], a[7], h, g, nmin, nmax, m, n);
            else disufq2(a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7], h, g, nmin, nmax, m, n);
            printf("ok\n");
            for (int i = 0; i < 8; i++) free(a[i]);
        }
        fflush(stdout);
    }
    return 0;
}
