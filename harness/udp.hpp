// UDP sockets and ports of their own for the checks that use the loopback network.
#ifndef VERIF_UDP_HPP
#define VERIF_UDP_HPP
#include "pbt.hpp"

#include <arpa/inet.h>
#include <cstddef>
#include <cstring>
#include <netinet/in.h>
#include <sys/socket.h>
#include <sys/un.h>
#include <time.h>
#include <unistd.h>

namespace
{
double now()
{
  timespec t;
  clock_gettime(CLOCK_MONOTONIC, &t);
  return (double)t.tv_sec + 1e-9 * (double)t.tv_nsec;
}
void pause(double s) { usleep((useconds_t)(s * 1e6)); }
double deadline = 20; // shorter once something has been lost
void lost() { deadline = 3; }

sockaddr_in address(unsigned port)
{
  sockaddr_in a;
  std::memset(&a, 0, sizeof a);
  a.sin_family = AF_INET;
  a.sin_port = htons((unsigned short)port);
  a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
  return a;
}

// A port nobody else uses: a named socket, released by the kernel when the process ends, is the mutex between processes.
struct Port
{
  int lock = -1;
  unsigned n = 0;
  bool take(unsigned port, double wait)
  {
    double const end = now() + wait;
    for (;;)
    {
      int f = socket(AF_UNIX, SOCK_STREAM | SOCK_CLOEXEC, 0);
      sockaddr_un a;
      std::memset(&a, 0, sizeof a);
      a.sun_family = AF_UNIX;
      std::snprintf(a.sun_path + 1, sizeof a.sun_path - 1, "verif-udp-%u", port);
      bool ok = f >= 0 && bind(f, (sockaddr*)&a, (socklen_t)(offsetof(sockaddr_un, sun_path) + 1 + std::strlen(a.sun_path + 1))) == 0;
      if (ok)
      {
        int u = socket(AF_INET, SOCK_DGRAM | SOCK_CLOEXEC, 0);
        sockaddr_in b = address(port);
        b.sin_addr.s_addr = htonl(INADDR_ANY);
        ok = u >= 0 && bind(u, (sockaddr*)&b, sizeof b) == 0;
        if (u >= 0) close(u);
      }
      if (ok) { lock = f; n = port; return true; }
      if (f >= 0) close(f);
      if (now() >= end) return false;
      pause(0.002);
    }
  }
  void any()
  {
    static unsigned next = (unsigned)getpid() * 37u;
    for (int i = 0; i < 2000; ++i)
      if (take(20000 + (next++ % 11000), 0)) return;
    pbt::fail("harness: no free UDP port");
  }
  Port() {}
  Port(Port const&) = delete;
  ~Port() { if (lock >= 0) close(lock); }
};
struct Socket // plain UDP socket
{
  int f;
  explicit Socket(unsigned port = 0)
  {
    f = socket(AF_INET, SOCK_DGRAM | SOCK_CLOEXEC, 0);
    if (f < 0) pbt::fail("harness: socket");
    if (port) { sockaddr_in a = address(port); if (bind(f, (sockaddr*)&a, sizeof a) != 0) pbt::fail("harness: bind"); }
  }
  Socket(Socket const&) = delete;
  ~Socket() { close(f); }
  void send(std::string const& m, unsigned port)
  {
    sockaddr_in a = address(port);
    if (sendto(f, m.data(), m.size(), 0, (sockaddr*)&a, sizeof a) != (ssize_t)m.size()) pbt::fail("harness: sendto");
  }
  bool receive(std::string& m, unsigned& from)
  {
    static std::vector<char> b(70000);
    sockaddr_in a;
    socklen_t l = sizeof a;
    ssize_t const n = recvfrom(f, b.data(), b.size(), MSG_DONTWAIT, (sockaddr*)&a, &l);
    if (n < 0) return false;
    m.assign(b.data(), (std::size_t)n);
    from = ntohs(a.sin_port);
    return true;
  }
};

} // namespace
#endif
