#ifndef VF_SIO_ZLIB_H
#define VF_SIO_ZLIB_H
#include "sio/api.h"
#include "sio/definitions.h"
namespace sio {
// Anything that can be undone and is not the identity: runs of equal bytes.
class zlib_compression {
public:
  void set_level(int) {}
  static constexpr byte mark = 0x78;
  void compress(const buffer_span& in, buffer& out) {
    buffer::container r{mark};
    for (size_type i = 0; i < in.size();) {
      size_type n = 1;
      while (n < 255 && i + n < in.size() && in.data()[i + n] == in.data()[i]) {
        ++n;
      }
      r.push_back(static_cast<byte>(n));
      r.push_back(static_cast<byte>(in.data()[i] ^ 0x55));
      i += n;
    }
    out = buffer(std::move(r));
  }
  void uncompress(const buffer_span& in, buffer& out) {
    if (in.size() % 2 != 1 || in.data()[0] != mark) {
      SIO_THROW(error_code::compress_error, "not compressed data");
    }
    size_type at = 0;
    for (size_type i = 1; i < in.size(); i += 2) {
      const auto n = static_cast<unsigned char>(in.data()[i]);
      if (n > out.size() - at) {
        SIO_THROW(error_code::compress_error, "the buffer is too small for the data");
      }
      std::memset(out.data() + at, in.data()[i + 1] ^ 0x55, n);
      at += n;
    }
  }
};
} // namespace sio
#endif
