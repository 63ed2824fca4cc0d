// Independent model of TLS 1.3 post-handshake message reassembly.
#ifndef VERIF_HARNESS_HSMODEL_H_
#define VERIF_HARNESS_HSMODEL_H_
#include "harness/h.h"
using ref::Bytes;

// Independent model: determined by the byte stream alone.
struct HModel {
  Bytes cur;  // bytes of the incomplete message
  std::vector<Bytes> tickets;
  bool retrieved = false, dead = false;
  // Feeds one call; returns false if the call must fail.
  struct Out { bool expecting, ku, ticket; int ku_type; size_t stored; };
  bool Feed(const Bytes& b, Out* o) {
    o->ku = o->ticket = false;
    o->ku_type = -1;
    if (dead) return false;  // after an error every call fails
    size_t i = 0;
    while (i < b.size()) {
      cur.push_back(b[i++]);
      if (cur[0] == 0x18) o->ku = true;
      else if (cur[0] == 0x04) o->ticket = true;
      else { dead = true; return false; }
      if (cur.size() >= 4) {
        size_t n = (cur[1] << 16) | (cur[2] << 8) | cur[3];
        if (cur.size() == 4 + n) {
          if (cur[0] == 0x18) {
            o->ku_type = n ? cur[4] : -2;
            cur.clear();
            if (i < b.size()) { dead = true; return false; }
            break;
          }
          if (!retrieved && tickets.size() < 5) tickets.push_back(cur);
          cur.clear();
        }
      }
    }
    o->expecting = !cur.empty();
    o->stored = retrieved ? 0 : tickets.size();
    return true;
  }
  bool Retrieve(std::vector<Bytes>* out) {
    if (retrieved || (!cur.empty() && cur[0] == 0x04)) return false;
    retrieved = true;
    *out = tickets;
    tickets.clear();
    return true;
  }
};
#endif
