#include "common.h"
#include "base64/base64_functions.h"
#include "network/network_functions.h"
using namespace cuhksz;
void vf_reset() {}
void vf_run(const Op& o, Ints& r) {
  const std::string& op = o.op; std::string s = strOf(o.b);
  if (op == "b64e") putStr(r, o.a[0] == -1 && s.size() % 2 ? base64Encode(s) : base64Encode(s, (int)o.a[0]));
  else if (op == "b64d") putStr(r, base64Decode(s));
  else if (op == "b64r") putStr(r, base64Decode(base64Encode(s)));
  else if (op == "urle") putStr(r, urlEncode(s));
  else if (op == "urld") putStr(r, urlDecode(s));
  else if (op == "urlr") putStr(r, urlDecode(urlEncode(s)));
  else abort();
}
