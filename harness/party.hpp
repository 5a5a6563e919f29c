// Two-party executions: both parties are forked from one initialised process, their sockets are
// interposed onto socket pairs, and the parent owns the transport: it decides how the byte stream of
// each direction is split, merged and timed, records the transcript, and notices hangs.
#ifndef VERIF_PARTY_HPP
#define VERIF_PARTY_HPP
#include "mc.hpp"
#include <poll.h>
#include <signal.h>
#include <sys/socket.h>
#include <sys/ioctl.h>
#include <sys/wait.h>
#include <sys/syscall.h>
#include <netinet/in.h>
#include <arpa/inet.h>
#include <linux/sockios.h>
#include <deque>

namespace party {
struct Sock { int fd = -1, master = -1; bool server = false; int bind_port = -1; uint32_t bind_addr = 0; int socks = 0; };
inline Sock& sock() { static Sock s; return s; }
}
extern "C" {
int socket(int, int, int) noexcept {
    auto& s = party::sock(); s.socks++;
    return s.server ? s.master : s.fd;
}
int bind(int, const struct sockaddr* a, socklen_t) noexcept { auto in = (const sockaddr_in*)a; party::sock().bind_port = in->sin_family == AF_INET ? ntohs(in->sin_port) : -2; party::sock().bind_addr = in->sin_addr.s_addr; return 0; }
int listen(int, int) noexcept { return 0; }
int accept(int, struct sockaddr*, socklen_t*) { return party::sock().fd; }
int accept4(int, struct sockaddr*, socklen_t*, int) { return party::sock().fd; }
int connect(int, const struct sockaddr* a, socklen_t) { auto in = (const sockaddr_in*)a; party::sock().bind_port = in->sin_family == AF_INET ? ntohs(in->sin_port) : -2; party::sock().bind_addr = in->sin_addr.s_addr; return 0; }
int setsockopt(int, int, int, const void*, socklen_t) noexcept { return 0; }
}

namespace party {
struct Policy {
    bool hold = false;                 // deliver only what the sender produced before it starts waiting (or ends)
    std::vector<size_t> cuts[2];       // absolute stream offsets per direction (0: server->client) at which a delivery ends
    size_t step = 0;                   // additionally cut every `step` bytes
    long close_after[2] = { -1, -1 };  // the connection of the sender breaks after so many delivered bytes
    double limit = 30;                 // seconds without any progress
};
struct Result { std::string out[2]; int status[2] = { 0, 0 }; std::string wire[2]; bool hang = false; std::string why;
    bool ok() const { return !hang && status[0] == 0 && status[1] == 0; } };

inline int& ctl() { static int f = -1; return f; }
inline void frame(char t, const std::string& s) {
    std::string b; b += t; uint64_t n = s.size(); b.append((char*)&n, 8); b += s;
    size_t o = 0; while (o < b.size()) { ssize_t k = write(ctl(), b.data() + o, b.size() - o); if (k <= 0) _exit(97); o += k; }
}
// both parties have finished and neither has left anything on the line: the next thing each of them hears is the
// other's closing word (which is not part of the transcript)
static const uint64_t CLOSING = 0x9d41c07be65a3f28ull;
template <class IO> inline void settle(IO& io, int role)
{
    uint64_t a = CLOSING + role, b = 0;
    if (role == 0) { io.SendBytes(&a, 8); io.ReceiveBytes(&b, 8); } else { io.ReceiveBytes(&b, 8); io.SendBytes(&a, 8); }
    if (b != CLOSING + (1 - role)) _exit(96);
}
inline void waiting() { frame('W', ""); }          // everything sent so far is on the wire; a receive follows

// f(role, NetIO) runs in a child of its own; what it returns is that party's output
template <class F> Result run(F f, const Policy& pol = Policy(), uint64_t salt = 0)
{
    Result R; int sp[2][2], cp[2][2]; pid_t pid[2];
    for (int i = 0; i < 2; i++) { if (::socketpair(AF_UNIX, SOCK_STREAM, 0, sp[i]) || pipe(cp[i])) { perror("socketpair"); _exit(3); } }
    for (int i = 0; i < 2; i++) {
        pid[i] = fork();
        if (pid[i] < 0) { perror("fork"); _exit(3); }
        if (pid[i] == 0) {
            for (int j = 0; j < 2; j++) { ::close(sp[j][0]); ::close(cp[j][0]); if (j != i) { ::close(sp[j][1]); ::close(cp[j][1]); } }
            signal(SIGPIPE, SIG_DFL);
            sock().server = i == 0; sock().fd = sp[i][1]; sock().master = open("/dev/null", O_RDWR); ctl() = cp[i][1];
            mc::sysrng().s = mc::mix(mc::sysrng().s ^ mc::mix(0x1000 + i + 2 * salt));
            srand((unsigned)mc::sysrng().next());
            std::string o = f(i);
            frame('R', o);
            fflush(nullptr);
            _exit(0);
        }
    }
    for (int i = 0; i < 2; i++) { ::close(sp[i][1]); ::close(cp[i][1]); }
    struct Dir { std::deque<std::pair<size_t, bool>> dummy; std::string q; size_t qoff = 0, released = 0, recvd = 0, deliv = 0; bool eof = false, shut = false; } d[2];
    std::string cbuf[2]; bool ended[2] = { false, false };
    double last = mc::elapsed();
    auto sendable = [&](int i) -> size_t {           // bytes of direction i (from party i to the other) that may go now
        size_t avail = d[i].recvd - d[i].deliv;
        if (pol.hold) avail = d[i].released > d[i].deliv ? std::min(avail, d[i].released - d[i].deliv) : 0;
        if (pol.close_after[i] >= 0) { size_t lim = (size_t)pol.close_after[i]; avail = d[i].deliv >= lim ? 0 : std::min(avail, lim - d[i].deliv); }
        if (!avail) return 0;
        size_t end = d[i].deliv + avail;
        for (size_t c : pol.cuts[i]) if (c > d[i].deliv && c < end) end = c;
        if (pol.step) end = std::min(end, (d[i].deliv / pol.step + 1) * pol.step);
        return end - d[i].deliv;
    };
    bool seg[2]; for (int i = 0; i < 2; i++) seg[i] = pol.step || !pol.cuts[i].empty();
    for (;;) {
        bool progress = false; pollfd p[4]; int np = 0; int idx[4];
        for (int i = 0; i < 2; i++) {
            if (!d[i].eof) { p[np] = { sp[i][0], POLLIN, 0 }; idx[np++] = i; }
            if (!ended[i]) { p[np] = { cp[i][0], POLLIN, 0 }; idx[np++] = 2 + i; }
        }
        bool pend = false;
        for (int i = 0; i < 2; i++) if (sendable(i) && !d[1 - i].shut) pend = true;
        if (np) poll(p, np, pend ? 0 : 50);
        // control first: a marker means all earlier bytes are already in the socket
        for (int k = 0; k < np; k++) if (idx[k] >= 2 && p[k].revents) {
            int i = idx[k] - 2; char b[65536]; ssize_t n = read(cp[i][0], b, sizeof b);
            if (n > 0) cbuf[i].append(b, n); else ended[i] = true;
            progress = true;
        }
        for (int i = 0; i < 2; i++) if (!d[i].eof) {
            for (;;) {
                char b[262144]; ssize_t n = recv(sp[i][0], b, sizeof b, MSG_DONTWAIT);
                if (n > 0) { d[i].q.append(b, n); R.wire[i].append(b, n); d[i].recvd += n; progress = true; if (n < (ssize_t)sizeof b) break; }
                else { if (n == 0 || (errno != EAGAIN && errno != EINTR)) { d[i].eof = true; progress = true; } break; }
            }
        }
        for (int i = 0; i < 2; i++) {
            while (cbuf[i].size() >= 9) {
                uint64_t n; memcpy(&n, cbuf[i].data() + 1, 8); if (cbuf[i].size() < 9 + n) break;
                if (cbuf[i][0] == 'R') R.out[i] = cbuf[i].substr(9, n);
                d[i].released = d[i].recvd; cbuf[i].erase(0, 9 + n);
            }
            if (d[i].eof) d[i].released = d[i].recvd;
        }
        for (int i = 0; i < 2; i++) if (!d[i].shut) {
            size_t n = sendable(i);
            if (n) {
                int out = 0;
                if (seg[i] && ioctl(sp[1 - i][0], SIOCOUTQ, &out) == 0 && out > 0) { if (!progress) usleep(10); continue; }   // previous part not yet consumed
                ssize_t k = send(sp[1 - i][0], d[i].q.data() + d[i].qoff, n, MSG_NOSIGNAL | MSG_DONTWAIT);
                if (k > 0) { d[i].deliv += k; d[i].qoff += k; if (d[i].qoff > (1 << 22)) { d[i].q.erase(0, d[i].qoff); d[i].qoff = 0; } progress = true; }
                else if (k < 0 && errno == EAGAIN) { if (!progress) usleep(50); }
                else if (k < 0) { d[i].shut = true; progress = true; }
            }
            bool cut = pol.close_after[i] >= 0 && d[i].deliv >= (size_t)pol.close_after[i];
            if (!d[i].shut && ((d[i].eof && d[i].deliv == d[i].recvd) || cut)) {
                int out = 0; if (seg[i] && ioctl(sp[1 - i][0], SIOCOUTQ, &out) == 0 && out > 0) continue;
                shutdown(sp[1 - i][0], SHUT_WR); d[i].shut = true; progress = true;
            }
        }
        if (ended[0] && ended[1]) break;
        if (progress) { last = mc::elapsed(); }
        else if (mc::elapsed() - last > pol.limit) { R.hang = true; break; }
        mc::beat();
    }
    for (int i = 0; i < 2; i++) {
        if (R.hang) kill(pid[i], SIGKILL);
        int st = 0; waitpid(pid[i], &st, 0); R.status[i] = st;
        ::close(sp[i][0]); ::close(cp[i][0]);
    }
    if (R.hang) R.why = "the parties do not finish";
    else for (int i = 0; i < 2; i++) if (R.status[i]) R.why += mc::cat(i ? " client" : " server", WIFSIGNALED(R.status[i]) ? " killed by signal " : WEXITSTATUS(R.status[i]) == 96 ? " finds unread bytes of the protocol on the line: " : " exits with ", WIFSIGNALED(R.status[i]) ? WTERMSIG(R.status[i]) : WEXITSTATUS(R.status[i]));
    for (int i = 0; i < 2; i++) { uint64_t c = CLOSING + i; auto& w = R.wire[i]; if (w.size() >= 8 && !memcmp(w.data() + w.size() - 8, &c, 8)) w.resize(w.size() - 8); }
    return R;
}
} // namespace party
#endif
