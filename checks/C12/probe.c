/* prints the options of an inherited socket as the kernel knows them */
#include <stdio.h>
#include <stdlib.h>
#include <fcntl.h>
#include <sys/socket.h>
#include <netinet/in.h>
#include <netinet/tcp.h>
static void o(FILE *f, const char *n, int fd, int l, int x) { int v = -1; socklen_t s = sizeof v;
  if (getsockopt(fd, l, x, &v, &s) < 0) v = -1; fprintf(f, "%s %d\n", n, v); }
int main(int c, char **v) { int fd = atoi(v[2]); FILE *f = fopen(v[1], "w"); struct linger l = {-1, -1}; socklen_t s = sizeof l;
  o(f, "debug", fd, SOL_SOCKET, SO_DEBUG); o(f, "reuseaddr", fd, SOL_SOCKET, SO_REUSEADDR); o(f, "keepalive", fd, SOL_SOCKET, SO_KEEPALIVE);
  o(f, "dontroute", fd, SOL_SOCKET, SO_DONTROUTE); o(f, "broadcast", fd, SOL_SOCKET, SO_BROADCAST); o(f, "oobinline", fd, SOL_SOCKET, SO_OOBINLINE);
  o(f, "sndbuf", fd, SOL_SOCKET, SO_SNDBUF); o(f, "rcvbuf", fd, SOL_SOCKET, SO_RCVBUF); o(f, "type", fd, SOL_SOCKET, SO_TYPE);
  o(f, "domain", fd, SOL_SOCKET, SO_DOMAIN); o(f, "protocol", fd, SOL_SOCKET, SO_PROTOCOL); o(f, "listening", fd, SOL_SOCKET, SO_ACCEPTCONN);
  o(f, "nodelay", fd, IPPROTO_TCP, TCP_NODELAY);
  getsockopt(fd, SOL_SOCKET, SO_LINGER, &l, &s); fprintf(f, "lingeron %d\nlinger %d\n", l.l_onoff, l.l_linger);
  fprintf(f, "nonblock %d\n", !!(fcntl(fd, F_GETFL) & O_NONBLOCK)); fclose(f); return 0; }
