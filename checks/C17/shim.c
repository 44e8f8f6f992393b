/* serves the system databases from the file named by VERIF_DB (one entry per line, TAB separated fields, hex coded strings,
 * comma separated lists) with the calling conventions of the C library */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <errno.h>
#include <pwd.h>
#include <grp.h>
#include <netdb.h>
#include <sys/socket.h>
#include <arpa/inet.h>
static char *fields[65536][8];
static int nent;
static char *unhex(const char *s, int *len) {
	int n = strcmp(s, "-") ? strlen(s) / 2 : 0, i; char *r = calloc(n + 1, 1);
	for (i = 0; i < n; i++) { unsigned x; sscanf(s + 2 * i, "%2x", &x); r[i] = x; }
	if (len) *len = n;
	return r;
}
static char **list(const char *s, int *len) {
	int n = 0; const char *p; char **r, *t, *c;
	for (p = s; *p; p++) n += *p == ',';
	r = calloc(n + 2, sizeof *r); n = 0;
	if (!*s) return r;
	c = strdup(s);
	for (t = strtok(c, ","); t; t = strtok(0, ",")) r[n++] = unhex(t, len);
	free(c);
	return r;
}
static void load(void) {
	static int done; char *ln = 0, *t, *save; size_t cap = 0; FILE *f; int k;
	if (done) return;
	done = 1;
	f = fopen(getenv("VERIF_DB") ? getenv("VERIF_DB") : "/dev/null", "r");
	while (f && getline(&ln, &cap, f) > 0) {
		ln[strcspn(ln, "\n")] = 0;
		for (k = 0, save = ln; k < 8 && (t = strsep(&save, "\t")); k++) fields[nent][k] = strdup(t);
		nent++;
	}
	free(ln);
	if (f) fclose(f);
}
#define EACH(kind) load(); int e_; for (e_ = 0; e_ < nent; e_++) if (!strcmp(fields[e_][0], kind))
#define F(i) fields[e_][i]
static int isin(const char *s, char **l) { for (; *l; l++) if (!strcmp(*l, s)) return 1; return 0; }
static int err(void) { const char *p = getenv("VERIF_DBERR"); if (p) errno = atoi(p); return 0; }
static struct passwd *mkpw(int e_) { static struct passwd p; p.pw_name = unhex(F(1), 0); p.pw_passwd = "x"; p.pw_uid = strtoul(F(2), 0, 10); p.pw_gid = strtoul(F(3), 0, 10);
	p.pw_gecos = "gecos"; p.pw_dir = unhex(F(4), 0); p.pw_shell = unhex(F(5), 0); return &p; }
struct passwd *getpwnam(const char *n) { EACH("pw") { struct passwd *p = mkpw(e_); if (!strcmp(n, p->pw_name)) return p; } err(); return 0; }
struct passwd *getpwuid(uid_t u) { EACH("pw") { struct passwd *p = mkpw(e_); if (p->pw_uid == u) return p; } err(); return 0; }
static struct group *mkgr(int e_) { static struct group g; g.gr_name = unhex(F(1), 0); g.gr_passwd = "x"; g.gr_gid = strtoul(F(2), 0, 10); g.gr_mem = list(F(3), 0); return &g; }
struct group *getgrnam(const char *n) { EACH("gr") { char *nm = unhex(F(1), 0); if (!strcmp(n, nm)) return mkgr(e_); } err(); return 0; }
struct group *getgrgid(gid_t u) { EACH("gr") if (strtoul(F(2), 0, 10) == u) return mkgr(e_); err(); return 0; }
static struct hostent *mkh(int e_) { static struct hostent h; h.h_name = unhex(F(1), 0); h.h_aliases = list(F(2), 0); h.h_addrtype = AF_INET; h.h_addr_list = list(F(3), 0); h.h_length = 4; return &h; }
struct hostent *gethostbyname(const char *n) { EACH("host") { struct hostent *h = mkh(e_); if (!strcmp(n, h->h_name) || isin(n, h->h_aliases)) return h; } h_errno = HOST_NOT_FOUND; return 0; }
struct hostent *gethostbyaddr(const void *a, socklen_t len, int type) { int i; if (len != 4 || type != AF_INET) return 0;
	EACH("host") { struct hostent *h = mkh(e_); for (i = 0; h->h_addr_list[i]; i++) if (!memcmp(a, h->h_addr_list[i], 4)) return h; } h_errno = HOST_NOT_FOUND; return 0; }
static struct servent *mks(int e_) { static struct servent s; s.s_name = unhex(F(1), 0); s.s_aliases = list(F(2), 0); s.s_port = htons(atoi(F(3))); s.s_proto = unhex(F(4), 0); return &s; }
struct servent *getservbyname(const char *n, const char *p) { EACH("serv") { struct servent *s = mks(e_); if ((!strcmp(n, s->s_name) || isin(n, s->s_aliases)) && (!p || !strcmp(p, s->s_proto))) return s; } return 0; }
struct servent *getservbyport(int port, const char *p) { EACH("serv") { struct servent *s = mks(e_); if (s->s_port == port && (!p || !strcmp(p, s->s_proto))) return s; } return 0; }
static struct protoent *mkp(int e_) { static struct protoent p; p.p_name = unhex(F(1), 0); p.p_aliases = list(F(2), 0); p.p_proto = atoi(F(3)); return &p; }
struct protoent *getprotobyname(const char *n) { EACH("prot") { struct protoent *p = mkp(e_); if (!strcmp(n, p->p_name) || isin(n, p->p_aliases)) return p; } return 0; }
struct protoent *getprotobynumber(int k) { EACH("prot") { struct protoent *p = mkp(e_); if (p->p_proto == k) return p; } return 0; }
static struct netent *mkn(int e_) { static struct netent n; n.n_name = unhex(F(1), 0); n.n_aliases = list(F(2), 0); n.n_addrtype = AF_INET; n.n_net = strtoul(F(3), 0, 10); return &n; }
struct netent *getnetbyname(const char *n) { EACH("net") { struct netent *p = mkn(e_); if (!strcmp(n, p->n_name) || isin(n, p->n_aliases)) return p; } return 0; }
struct netent *getnetbyaddr(uint32_t a, int type) { EACH("net") { struct netent *p = mkn(e_); if (p->n_net == a && type == AF_INET) return p; } return 0; }
int gethostname(char *b, size_t n) { const char *h = getenv("VERIF_HOST"); if (!h) h = "shim"; if (strlen(h) + 1 > n) { memcpy(b, h, n); errno = ENAMETOOLONG; return -1; } strcpy(b, h); return 0; }
int __gethostname_chk(char *b, size_t n, size_t o) { return gethostname(b, n); }
