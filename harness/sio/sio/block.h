#ifndef VF_SIO_BLOCK_H
#define VF_SIO_BLOCK_H
#include "sio/definitions.h"
#include "sio/io_device.h"
namespace sio {
class block {
public:
  block(const std::string& n, version_type v) : m_name(n), m_version(v) {}
  block(const block&) = delete;
  block& operator=(const block&) = delete;
  virtual ~block() = default;
  const std::string& name() const { return m_name; }
  version_type version() const { return m_version; }
  virtual void read(read_device& device, version_type version) = 0;
  virtual void write(write_device& device) = 0;

private:
  std::string m_name;
  version_type m_version{0};
};
} // namespace sio
#endif
