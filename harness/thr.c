/* Sessions run at the same time: a file holds the commands of each thread
 * (a line "T" begins a thread), the answers go to another file. */
#include "drv.h"

typedef struct { char **line; int n, cap; char **out; int late; } sess_t;
static pthread_barrier_t gate;
static void *body(void *p)
{
    sess_t *s = p; int i;
    pthread_barrier_wait(&gate);
    for (i = 0; i < s->n; i++) { const char *o = run_line(s->line[i]); s->out[i] = strdup(o ? o : ""); }
    return NULL;
}
/* thr IN OUT: run the sessions of IN together */
int cmd_thr(const char *op)
{
    static sess_t s[64]; pthread_t t[64]; int n = 0, i, j; char *line = NULL, *name; size_t cap = 0; ssize_t k; FILE *f;
    if (strcmp(op, "thr")) return 0;
    memset(s, 0, sizeof s);
    name = strdup(as(2));
    f = fopen(as(1), "r"); if (!f) { badcmd(); return 1; }
    while ((k = getline(&line, &cap, f)) > 0) {
        if (line[k-1] == '\n') line[k-1] = 0;
        if (!strcmp(line, "T")) { n++; continue; }
        sess_t *x = &s[n-1];
        if (x->n == x->cap) x->line = realloc(x->line, (x->cap = 2 * x->cap + 64) * sizeof(char *));
        x->line[x->n++] = strdup(line);
    }
    fclose(f);
    pthread_barrier_init(&gate, NULL, n);
    for (i = 0; i < n; i++) s[i].out = calloc(s[i].n + 1, sizeof(char *));
    for (i = 0; i < n; i++) pthread_create(&t[i], NULL, body, &s[i]);
    for (i = 0; i < n; i++) pthread_join(t[i], NULL);
    f = fopen(name, "w");
    for (i = 0; i < n; i++) for (j = 0; j < s[i].n; j++) { fprintf(f, "%s\n", s[i].out[j]); free(s[i].out[j]); free(s[i].line[j]); }
    fclose(f);
    for (i = 0; i < n; i++) { free(s[i].out); free(s[i].line); }
    free(line); free(name); rint("threads", n);
    return 1;
}
