// Persistent worker: runs jsonstroll's own main() over and over inside one
// sanitised process, with stdin/stdout/stderr captured and (for the "tui"
// command) a scripted keyboard in front of the real ncurses library.
// Protocol: u32 nfields { u32 len, bytes } on fds 198 (requests) / 199 (replies).
#include <ncurses.h>
#include <unistd.h>
#include <fcntl.h>
#include <setjmp.h>
#include <signal.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <locale.h>
#include <sys/ioctl.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <cxxabi.h>
#include <iostream>
#include <sstream>
#include <string>
#include <vector>
#include <typeinfo>
#include <exception>

int stroll_main(int, char **);

#include "proto.hh"

// ---------------------------------------------------------------- state
struct Stuck {};
static volatile bool inCase = false;
static bool ttyMode = false;
static jmp_buf exitJmp;
static int winW = 80, winH = 24;
static std::vector<int> keys;
static size_t keyPos = 0;
static unsigned errRun = 0, overrun = 0;
static std::vector<std::string> shots;
static FILE *ttyOut = nullptr, *ttyIn = nullptr;
static unsigned ncreated = 0;

static const int SIGBASE = 1000000, RESBASE = 2000000, SILENT = 4000000, CONTBASE = 6000000;

static void snapshot()
{
    std::string s;
    int h, w, cy, cx;
    getmaxyx(curscr, h, w);
    getyx(curscr, cy, cx);
    putU32(s, w); putU32(s, h);
    std::string chars, attrs;
    std::vector<chtype> line(w + 1);
    for (int y = 0; y < h; ++y) {
        wmove(curscr, y, 0);
        for (int x = 0; x < w; ++x) line[x] = ' ';
        winchnstr(curscr, line.data(), w);
        for (int x = 0; x < w; ++x) {
            chtype c = line[x];
            chars += (c & A_ALTCHARSET) ? (char)0x01 : (char)(c & A_CHARTEXT);
            attrs += (char)((c & A_REVERSE ? 0x80 : 0) | (PAIR_NUMBER(c & A_COLOR) & 0x7f));
        }
    }
    wmove(curscr, cy, cx);
    s += chars; s += attrs;
    shots.push_back(s);
}

extern "C" {
void __real_exit(int) __attribute__((noreturn));
void __wrap_exit(int) __attribute__((noreturn));
void __wrap_exit(int code)
{
    if (inCase) longjmp(exitJmp, 0x1000 | (code & 0xff));
    __real_exit(code);
}
int __real_isatty(int);
int __wrap_isatty(int fd) { return inCase ? (ttyMode ? 1 : 0) : __real_isatty(fd); }
int __real_ioctl(int, unsigned long, void *);
int __wrap_ioctl(int fd, unsigned long req, void *p)
{
    if (inCase && ttyMode && req == TIOCGWINSZ) {
        struct winsize *ws = (struct winsize *)p;
        memset(ws, 0, sizeof(*ws));
        ws->ws_row = winH; ws->ws_col = winW;
        return 0;
    }
    return __real_ioctl(fd, req, p);
}
SCREEN *__real_newterm(const char *, FILE *, FILE *);
SCREEN *__wrap_newterm(const char *, FILE *, FILE *)
{
    setenv("LINES", std::to_string(winH).c_str(), 1);
    setenv("COLUMNS", std::to_string(winW).c_str(), 1);
    ++ncreated;
    return __real_newterm("xterm", ttyOut, ttyIn);
}
int __real_wgetch(WINDOW *);
static bool pressed(int k, int &sig)
{
    sig = 0;
    if (k >= CONTBASE) {  // stopped, resized and resumed
        winW = (k - CONTBASE) >> 10; winH = (k - CONTBASE) & 1023;
        sig = SIGCONT;
    }
    else if (k >= SILENT) {  // resized while stopped: no SIGWINCH
        winW = (k - SILENT) >> 10; winH = (k - SILENT) & 1023;
    }
    else if (k >= RESBASE) {
        winW = (k - RESBASE) >> 10; winH = (k - RESBASE) & 1023;
        sig = SIGWINCH;
    }
    else if (k >= SIGBASE)
        sig = k - SIGBASE;
    else
        return k >= 0;
    return false;
}

int __wrap_wgetch(WINDOW *w)
{
    while (true) {
        // what real wgetch does first: bring a modified window to the screen
        if (is_wintouched(w)) wrefresh(w);
        snapshot();
        if (keyPos >= keys.size()) {
            if (++overrun > 64) throw Stuck();
            return 'q';
        }
        int sig, k = keys[keyPos++];
        if (pressed(k, sig)) return k;
        bool blocks = wgetdelay(w) < 0;
        if (sig) {
            // a blocked read starts again after the handler, unless it was installed not to
            struct sigaction sa;
            sigaction(sig, nullptr, &sa);
            raise(sig);
            if (blocks && !(sa.sa_flags & SA_RESTART)) blocks = false;
        }
        if (!blocks) return ERR;
    }
}
}

static int outFd = -1, errFd = -1;
static std::string drain(int fd)
{
    off_t n = lseek(fd, 0, SEEK_END);
    std::string s(n, 0);
    if (n) { ssize_t r = pread(fd, &s[0], n, 0); (void)r; }
    if (ftruncate(fd, 0)) {}
    lseek(fd, 0, SEEK_SET);
    return s;
}

static std::string demangle(const std::type_info *t)
{
    if (!t) return "unknown";
    int st; char *d = abi::__cxa_demangle(t->name(), 0, 0, &st);
    std::string r = d ? d : t->name();
    free(d);
    return r;
}

static Msg runCase(const std::string &in, std::vector<std::string> &av)
{
    std::vector<char *> argv;
    for (auto &a : av) argv.push_back(&a[0]);
    argv.push_back(nullptr);
    std::stringbuf inbuf(in, std::ios::in);
    std::streambuf *oldCin = std::cin.rdbuf(&inbuf);
    std::cin.clear();
    setlocale(LC_ALL, "C");
    shots.clear(); keyPos = 0; overrun = 0; ncreated = 0;
    std::string outcome;
    cpuLimit(20);
    inCase = true;
    int j = setjmp(exitJmp);
    if (j == 0) {
        try {
            int rc = stroll_main(argv.size() - 1, argv.data());
            outcome = "ret:" + std::to_string(rc & 0xff);
        }
        catch (Stuck &) { outcome = "stuck"; }
        catch (std::exception &e) { outcome = "exc:" + demangle(abi::__cxa_current_exception_type()) + ": " + e.what(); }
        catch (...) { outcome = "exc:" + demangle(abi::__cxa_current_exception_type()); }
    }
    else
        outcome = "exit:" + std::to_string(j & 0xff);
    inCase = false;
    cpuLimit(0);
    std::cout.flush(); std::cerr.flush(); fflush(stdout); fflush(stderr);
    std::cout.clear(); std::cerr.clear();
    std::cin.rdbuf(oldCin);
    signal(SIGINT, SIG_DFL); signal(SIGTERM, SIG_DFL); signal(SIGWINCH, SIG_DFL); signal(SIGCONT, SIG_DFL);
    Msg r;
    r.push_back(outcome);
    r.push_back(drain(outFd));
    r.push_back(drain(errFd));
    for (auto &s : shots) r.push_back(s);
    return r;
}

int main()
{
    openPipes();
    signal(SIGPIPE, SIG_IGN);
    signal(SIGPROF, onCpuLimit);
    outFd = memfd_create("out", 0); errFd = open(getenv("VW_ERR"), O_RDWR | O_CREAT | O_TRUNC | O_APPEND, 0600);
    dup2(outFd, 1); dup2(errFd, 2);
    outFd = 1; errFd = 2;
    ttyOut = fopen("/dev/null", "w"); ttyIn = fopen("/dev/null", "r");
    setenv("TERM", "xterm", 1);
    while (true) {
        Msg m = readMsg();
        if (m.empty()) return 0;
        const std::string cmd = m[0];
        if (cmd == "main") {            // main, stdin, locale, argv...
            ttyMode = false; keys.clear();
            setenv("LC_ALL", m[2].c_str(), 1);
            std::vector<std::string> av(m.begin() + 3, m.end());
            writeMsg(runCase(m[1], av));
        }
        else if (cmd == "tui") {        // tui, stdin, locale, W, H, keys, argv...
            ttyMode = true;
            setenv("LC_ALL", m[2].c_str(), 1);
            winW = atoi(m[3].c_str()); winH = atoi(m[4].c_str());
            keys.clear();
            { std::istringstream ss(m[5]); int k; while (ss >> k) keys.push_back(k); }
            std::vector<std::string> av(m.begin() + 6, m.end());
            writeMsg(runCase(m[1], av));
        }
        else
            writeMsg(Msg(1, "bad"));
    }
}
