// Runs jsonstroll's main() with a scripted keyboard, and writes every screen shown (characters, then attributes) to fd 3.
#include <ncurses.h>
#include <unistd.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/ioctl.h>
#include <sstream>
#include <string>
#include <vector>

int stroll_main(int, char **);
static int W, H;
static std::vector<int> keys;
static size_t pos = 0;

static void snapshot()
{
    int h, w;
    getmaxyx(curscr, h, w);
    std::string s = std::to_string(w) + " " + std::to_string(h) + "\n", a;
    std::vector<chtype> line(w + 1);
    for (int y = 0; y < h; ++y) {
        for (int x = 0; x < w; ++x) {
            chtype c = mvwinch(curscr, y, x);
            char buf[4];
            s += (c & A_ALTCHARSET) ? '#' : (char)(c & A_CHARTEXT);
            snprintf(buf, sizeof(buf), "%02x", (unsigned)((c & A_REVERSE ? 0x80 : 0) | (PAIR_NUMBER(c & A_COLOR) & 0x7f)));
            a += buf;
        }
        s += '\n';
        a += '\n';
    }
    s += a;
    if (write(3, s.data(), s.size()) < 0) _exit(98);
}

extern "C" {
int __wrap_isatty(int) { return 1; }
int __real_ioctl(int, unsigned long, void *);
int __wrap_ioctl(int fd, unsigned long req, void *p)
{
    if (req != TIOCGWINSZ) return __real_ioctl(fd, req, p);
    struct winsize *ws = (struct winsize *)p;
    memset(ws, 0, sizeof(*ws));
    ws->ws_row = H; ws->ws_col = W;
    return 0;
}
SCREEN *__real_newterm(const char *, FILE *, FILE *);
SCREEN *__wrap_newterm(const char *, FILE *, FILE *)
{
    setenv("LINES", std::to_string(H).c_str(), 1);
    setenv("COLUMNS", std::to_string(W).c_str(), 1);
    return __real_newterm("xterm", fopen("/dev/null", "w"), fopen("/dev/null", "r"));
}
int __wrap_wgetch(WINDOW *w)
{
    while (true) {
        if (is_wintouched(w)) wrefresh(w);
        snapshot();
        if (pos >= keys.size()) { pos++; if (pos > keys.size() + 50) _exit(99); return 'q'; }
        int k = keys[pos++];
        if (k >= 4000000) { W = (k - 4000000) >> 10; H = (k - 4000000) & 1023; }
        else if (k >= 2000000) { W = (k - 2000000) >> 10; H = (k - 2000000) & 1023; raise(SIGWINCH); }
        else if (k >= 1000000) raise(k - 1000000);
        else if (k >= 0) return k;
        if (wgetdelay(w) >= 0) return ERR;      // a read that blocks starts again after a signal
    }
}
}

int main(int ac, char **av)
{
    W = atoi(av[1]); H = atoi(av[2]);
    std::istringstream ss(av[3]);
    int k;
    while (ss >> k) keys.push_back(k);
    std::vector<char *> a{av[0]};
    for (int i = 4; i < ac; ++i) a.push_back(av[i]);
    a.push_back(nullptr);
    alarm(60);
    return stroll_main(a.size() - 1, a.data());
}
