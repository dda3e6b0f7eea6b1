// Random viewable objects, and an independent decoder of what the view server receives.
#pragma once
#include <string>
#include <vector>

#include "resim/visualization/view_primitive.hh"

namespace payload {

using Payload = decltype(resim::visualization::ViewPrimitive::payload);

resim::UUID random_uuid();
Payload random_payload(int kind);  // 0..6, the variant's index
std::string describe(const Payload &p);

struct Decoded {
  std::string id;
  bool has_id = false;
  int kind = -1;  // variant index, -1: none, -2: several
  std::string raw;
  std::string name, file;
  long long line = 0;
};

// Decodes a serialized view update without using the repository's own code.
bool decode_update(const std::string &body, std::vector<Decoded> &out, std::string &why);
// Does the received payload carry the values and frames of the object?
bool same(const Payload &p, const Decoded &d, std::string &why);

}  // namespace payload
