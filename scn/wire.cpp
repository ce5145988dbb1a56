#include "wire.h"
static void p16(Str& s, unsigned v) { s += (char)(v >> 8); s += (char)v; }
static void p32(Str& s, uint32_t v) { p16(s, v >> 16); p16(s, v & 0xffff); }
static uint32_t g16(const Str& s, size_t o) { return ((uint32_t)(unsigned char)s[o] << 8) | (unsigned char)s[o + 1]; }
static uint32_t g32(const Str& s, size_t o) { return (g16(s, o) << 16) | g16(s, o + 2); }
Str wire_encode(const WMsg& m, int hdrlen, long paylen, int ver, unsigned mark1, unsigned mark2, long toplen, long replen) {
  Str s; size_t hl = 52 + m.topic.size() + m.reply.size();
  p16(s, mark1); p16(s, (unsigned)ver); p16(s, hdrlen < 0 ? (unsigned)hl : (unsigned)hdrlen); p32(s, m.seq); p32(s, m.flags); p32(s, m.ctl); p32(s, paylen < 0 ? (uint32_t)m.payload.size() : (uint32_t)paylen);
  p32(s, toplen < 0 ? (uint32_t)m.topic.size() : (uint32_t)toplen); s += m.topic; p32(s, replen < 0 ? (uint32_t)m.reply.size() : (uint32_t)replen); s += m.reply;
  for (int i = 0; i < 5; i++) p32(s, m.t[i]);
  p16(s, mark2); s += m.payload; return s; }
bool Wire::open(const char* path) { struct sockaddr_un a; memset(&a, 0, sizeof a); a.sun_family = AF_UNIX; snprintf(a.sun_path, sizeof a.sun_path, "%s", path);
  fd = socket(AF_UNIX, SOCK_STREAM, 0); eof = bad = false; buf.clear(); if (connect(fd, (struct sockaddr*)&a, sizeof a)) { ::close(fd); fd = -1; return false; } return true; }
void Wire::close() { if (fd >= 0) ::close(fd); fd = -1; }
bool Wire::raw(const Str& b) { return fd >= 0 && ::send(fd, b.data(), b.size(), MSG_NOSIGNAL) == (ssize_t)b.size(); }
std::vector<WMsg> Wire::take() {
  std::vector<WMsg> out; if (fd < 0) return out;
  for (;;) { struct pollfd p = {fd, POLLIN, 0}; if (poll(&p, 1, 0) <= 0 || !(p.revents & POLLIN)) break; char t[65536]; ssize_t n = recv(fd, t, sizeof t, 0); if (n <= 0) { eof = true; break; } buf.append(t, (size_t)n); }
  for (;;) {
    if (buf.size() < 6) break;
    if (g16(buf, 0) != 0xaaaa || g16(buf, 2) != 2) { bad = true; break; }
    size_t hl = g16(buf, 4); if (buf.size() < hl) break;
    WMsg m; m.seq = g32(buf, 6); m.flags = g32(buf, 10); m.ctl = g32(buf, 14); size_t pl = g32(buf, 18), tl = g32(buf, 22);
    if (tl > 300 || 26 + tl + 4 > hl) { bad = true; break; }
    m.topic = buf.substr(26, tl); size_t rl = g32(buf, 26 + tl); if (rl > 300 || 52 + tl + rl != hl) { bad = true; break; }
    m.reply = buf.substr(30 + tl, rl); size_t o = 30 + tl + rl; for (int i = 0; i < 5; i++) m.t[i] = g32(buf, o + 4 * (size_t)i);
    if (g16(buf, o + 20) != 0xaaaa) { bad = true; break; }
    if (buf.size() < hl + pl) break;
    m.payload = buf.substr(hl, pl); buf.erase(0, hl + pl); out.push_back(m); }
  return out; }
Str jesc(const Str& s) { Str r; for (char c : s) { if (c == '"' || c == '\\') r += '\\'; r += c; } return r; }
void Wire::subscribe(const char* topic, int route, int add, const char* reply, uint32_t seq) {
  WMsg m; m.topic = "_RTROUTED.INBOX.SUBSCRIBE"; m.reply = reply; m.flags = *reply ? WF_REQ : 0; m.seq = seq; m.payload = fmt("{\"add\":%d,\"topic\":\"%s\",\"route_id\":%d}", add, jesc(topic).c_str(), route); send(m); }
