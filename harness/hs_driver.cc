// Drives HandshakeMessageHandler. Script:
//   reset              fresh handler
//   feed RUNS          ProcessHandshakeMessage on the bytes
//   feednull           ProcessHandshakeMessage(nullptr, 0)
//   get                GetStoredTickets
#include "common.h"
#include "src/record_protocol/handshake_message_handler.h"
using s2a::handshake_message_handler::HandshakeMessageHandler;
int main(int argc, char** argv) {
  Driver d(argc, argv);
  auto h = std::make_unique<HandshakeMessageHandler>();
  Toks t;
  while (d.next(&t)) {
    Json j;
    j.str("op", t[0]);
    if (t[0] == "reset") {
      h = std::make_unique<HandshakeMessageHandler>();
    } else if (t[0] == "feed" || t[0] == "feednull") {
      Bytes b = t[0] == "feed" ? ParseRuns(t[1]) : Bytes();
      Exact e(b);
      mem::g_lib = 1;
      auto r = h->ProcessHandshakeMessage(t[0] == "feed" ? e.p.get() : nullptr, e.n);
      mem::g_lib = 0;
      if (b.size() < 3000) told::Secret("ticket", b);
      if (r.index() == 0) told::Say(std::string(absl::get<0>(r).message()));
      j.raw("in", Runs(b));
      j.boolean("ok", r.index() == 1);
      if (r.index() == 1) {
        auto& x = absl::get<1>(r);
        j.boolean("exp", x.expecting_to_read_more_bytes).boolean("ku", x.contains_key_update)
            .num("kut", x.key_update_type).boolean("tk", x.contains_ticket)
            .num("n", (long long)x.num_full_tickets_stored);
      }
    } else if (t[0] == "get") {
      mem::g_lib = 1;
      auto r = h->GetStoredTickets();
      mem::g_lib = 0;
      if (r.index() == 0) told::Say(std::string(absl::get<0>(r).message()));
      j.boolean("ok", r.index() == 1);
      if (r.index() == 1) {
        std::string o = "[";
        auto& v = absl::get<1>(r);
        if (v != nullptr) {
          for (auto& m : *v) {
            Bytes b;
            for (auto& f : *m) b.insert(b.end(), f->begin(), f->end());
            if (o.size() > 1) o += ',';
            o += Runs(b);
          }
        }
        j.raw("tix", o + "]");
      }
    }
    d.emit(j);
  }
}
