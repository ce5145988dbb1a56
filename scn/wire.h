#ifndef SCN_WIRE_H
#define SCN_WIRE_H
/* a client speaking the rtMessage wire protocol directly over a (virtual) socket; runs in the scenario's own process */
#include "common.h"
#include <sys/socket.h>
#include <sys/un.h>
#include <poll.h>
#include <unistd.h>
enum { WF_REQ = 1, WF_RSP = 2, WF_UNDELIVERABLE = 4, WF_RAW = 0x10 };
struct WMsg { uint32_t seq = 0, flags = 0, ctl = 0; Str topic, reply, payload; uint32_t t[5] = {0, 0, 0, 0, 0};
  Str str() const { return fmt("[seq=%u flags=%x ctl=%u topic=%s reply=%s payload(%zu)=%s]", seq, flags, ctl, topic.c_str(), reply.c_str(), payload.size(), payload.substr(0, 200).c_str()); } };
Str wire_encode(const WMsg& m, int hdrlen = -1, long paylen = -1, int ver = 2, unsigned mark1 = 0xaaaa, unsigned mark2 = 0xaaaa, long toplen = -1, long replen = -1);
struct Wire {
  int fd = -1; Str buf; bool eof = false; bool bad = false;
  bool open(const char* path = "/tmp/rtrouted");
  void close();
  bool raw(const Str& bytes);
  bool send(const WMsg& m) { return raw(wire_encode(m)); }
  std::vector<WMsg> take();            /* everything that has arrived so far (does not wait) */
  void subscribe(const char* topic, int route, int add = 1, const char* reply = "", uint32_t seq = 1);
};
Str jesc(const Str& s);
#endif
