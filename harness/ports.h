// TCP ports for servers under test. They are outside the range from which the kernel picks ports for
// outgoing connections, and a name in the abstract Unix namespace keeps them exclusive among the
// harness processes until the object goes away (also if the process is killed).
#pragma once
#include <sys/socket.h>
#include <sys/un.h>
#include <netinet/in.h>
#include <unistd.h>
#include <cstring>
#include <cstdio>
#include <cstddef>
struct Port {
    int port, lk;
    Port() : port(-1), lk(-1) {
        static unsigned n = 0;
        unsigned start = (unsigned) getpid() * 2654435761u + (n += 7);
        for (unsigned k = 0; k < 4000; ++k) {
            int p = 10000 + (int) ((start + k * 13) % 22000);
            lk = socket(AF_UNIX, SOCK_DGRAM, 0);
            sockaddr_un u; memset(&u, 0, sizeof u); u.sun_family = AF_UNIX;
            int len = snprintf(u.sun_path + 1, sizeof u.sun_path - 1, "verif-port-%d", p);
            if (bind(lk, (sockaddr *) &u, (socklen_t) (offsetof(sockaddr_un, sun_path) + 1 + len)) == 0) {
                int fd = socket(PF_INET, SOCK_STREAM, 0);
                sockaddr_in a; memset(&a, 0, sizeof a); a.sin_family = AF_INET; a.sin_addr.s_addr = INADDR_ANY; a.sin_port = htons((unsigned short) p);
                bool ok = bind(fd, (sockaddr *) &a, sizeof a) == 0;
                close(fd);
                if (ok) { port = p; return; }
            }
            close(lk); lk = -1;
        }
    }
    ~Port() { if (lk >= 0) close(lk); }
    Port(const Port &) = delete; Port &operator=(const Port &) = delete;
};
