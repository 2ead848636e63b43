// Sofa stream handler plug-in for the scheme "vp:".
#include "stream_content.hpp"
#include "uima/api.hpp"
#include "uima/sofastreamhandler.hpp"
#include <cstdio>
#include <cstring>
using namespace uima;
extern "C" int vp_stream_open_handlers = 0;   // handlers alive (constructed - destroyed)
extern "C" int vp_stream_open_streams = 0;
class VpStream : public SofaStreamHandler {
  std::vector<unsigned char> d; long pos = 0; bool open = false; size_t buf = 0;
public:
  VpStream() { vp_stream_open_handlers++; }
  ~VpStream() { if (open) vp_stream_open_streams--; vp_stream_open_handlers--; }
  void openStream(const char * u) override { openStream(u, 4096); }
  void openStream(const char * u, size_t b) override { d = vpStreamContent(u); pos = 0; if (!open) vp_stream_open_streams++; open = true; buf = b; }
  INT64 getTotalStreamSize() override { return open ? (INT64) d.size() : -1; }
  size_t getBufferSize() override { return buf; }
  INT64 howManyAvailable() override { return open ? (INT64) d.size() - pos : -1; }
  INT64 getNext(size_t n, void * p) override { if (!open || pos >= (long) d.size()) return -1; size_t k = std::min(n, d.size() - (size_t) pos); memcpy(p, d.data() + pos, k); pos += k; return k; }
  int seek(INT64 off, int origin) override { if (!open) return -1; INT64 np = origin == SEEK_SET ? off : origin == SEEK_CUR ? pos + off : (INT64) d.size() + off; if (np < 0 || np > (INT64) d.size()) return -1; pos = np; return 0; }
  void closeStream() override { if (open) vp_stream_open_streams--; open = false; }
};
MAKE_HANDLER(VpStream)
