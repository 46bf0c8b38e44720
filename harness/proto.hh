// Requests and replies of the persistent workers, and the CPU budget of one case.
#pragma once
#include <fcntl.h>
#include <signal.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/time.h>
#include <unistd.h>
#include <string>
#include <vector>

typedef std::vector<std::string> Msg;
static const int RFD = 198, WFD = 199;    // moved there from $VW_FDS

static void readAll(int fd, void *p, size_t n)
{
    char *c = (char *)p;
    while (n) {
        ssize_t r = ::read(fd, c, n);
        if (r <= 0) _exit(0);
        c += r; n -= r;
    }
}
static void writeAll(int fd, const void *p, size_t n)
{
    const char *c = (const char *)p;
    while (n) {
        ssize_t r = ::write(fd, c, n);
        if (r <= 0) _exit(0);
        c += r; n -= r;
    }
}
static Msg readMsg()
{
    uint32_t n; readAll(RFD, &n, 4);
    Msg m(n);
    for (auto &s : m) {
        uint32_t l; readAll(RFD, &l, 4);
        s.resize(l);
        if (l) readAll(RFD, &s[0], l);
    }
    return m;
}
static void putU32(std::string &o, uint32_t v) { o.append((const char *)&v, 4); }
static void writeMsg(const Msg &m)
{
    std::string o;
    putU32(o, m.size());
    for (auto &s : m) { putU32(o, s.size()); o += s; }
    writeAll(WFD, o.data(), o.size());
}

static void openPipes()
{
    int r = -1, w = -1;
    const char *e = getenv("VW_FDS");
    if (!e || sscanf(e, "%d %d", &r, &w) != 2) _exit(2);
    dup2(r, RFD); dup2(w, WFD); close(r); close(w);
    fcntl(RFD, F_SETFD, FD_CLOEXEC); fcntl(WFD, F_SETFD, FD_CLOEXEC);
    unsetenv("VW_FDS");
}

static void onCpuLimit(int)
{
    // CPU budget of one case exhausted: the program spins.
    Msg m; m.push_back("hang");
    std::string o; putU32(o, 1); putU32(o, 4); o += "hang";
    writeAll(WFD, o.data(), o.size());
    _exit(77);
}

static void cpuLimit(int s)
{
    struct itimerval tv;
    memset(&tv, 0, sizeof tv);
    tv.it_value.tv_sec = s;
    setitimer(ITIMER_PROF, &tv, nullptr);
}
