/* Stands in for a licensing executable: hands its standard input and output to
 * the process listening on $VF_RELAY_SOCK and stays until that closes the
 * connection (the byte it sends before closing is the exit status). */
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <signal.h>
#include <sys/socket.h>
#include <sys/un.h>
int main(void)
{
    struct sockaddr_un a = { AF_UNIX };
    int s = socket(AF_UNIX, SOCK_STREAM, 0), fds[2] = { 0, 1 };
    char c[CMSG_SPACE(sizeof fds)] = { 0 }, b[32] = "x";
    struct iovec v = { b, 32 };
    struct msghdr m = { 0 };
    struct cmsghdr *h;
    pid_t pid = getpid();
    unsigned char st = 0, x;
    strcpy(a.sun_path, getenv("VF_RELAY_SOCK"));
    if (connect(s, (struct sockaddr *)&a, sizeof a)) return 9;
    memcpy(b, &pid, sizeof pid);
    m.msg_iov = &v; m.msg_iovlen = 1; m.msg_control = c; m.msg_controllen = sizeof c;
    h = CMSG_FIRSTHDR(&m);
    h->cmsg_level = SOL_SOCKET; h->cmsg_type = SCM_RIGHTS; h->cmsg_len = CMSG_LEN(sizeof fds);
    memcpy(CMSG_DATA(h), fds, sizeof fds);
    if (sendmsg(s, &m, 0) < 0) return 9;
    close(0); close(1);
    while (read(s, &x, 1) == 1) st = x;
    if (st == 255) { signal(SIGSEGV, SIG_DFL); raise(SIGSEGV); }
    return st;
}
