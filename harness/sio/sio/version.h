#ifndef VF_SIO_VERSION_H
#define VF_SIO_VERSION_H
#include "sio/definitions.h"
namespace sio {
class version {
public:
  static constexpr version_type encode_version(std::uint16_t major, std::uint16_t minor) { return (static_cast<version_type>(major) << 16) + minor; }
  static constexpr std::uint16_t major_version(version_type v) { return static_cast<std::uint16_t>(v >> 16); }
  static constexpr std::uint16_t minor_version(version_type v) { return static_cast<std::uint16_t>(v & 0xffff); }
};
} // namespace sio
#endif
