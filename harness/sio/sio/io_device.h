#ifndef VF_SIO_IO_DEVICE_H
#define VF_SIO_IO_DEVICE_H
#include "sio/definitions.h"
#include <type_traits>
namespace sio {
class write_device {
public:
  template <class T>
    requires std::is_trivially_copyable_v<T>
  void data(const T& x) {
    bytes(&x, sizeof x);
  }
  template <class T>
    requires std::is_trivially_copyable_v<T>
  void data(const T* p, size_type n) {
    bytes(p, n * sizeof(T));
  }
  void data(const std::string& s) {
    data(static_cast<std::int32_t>(s.size()));
    bytes(s.data(), s.size());
  }
  template <class T>
  void data(const std::vector<T>& v) {
    data(static_cast<std::int32_t>(v.size()));
    for (const auto& x : v) {
      data(x);
    }
  }
  buffer::container& out() { return m_out; }

private:
  void bytes(const void* p, size_type n) {
    if (n) {
      const auto* c = static_cast<const byte*>(p);
      m_out.insert(m_out.end(), c, c + n);
    }
  }
  buffer::container m_out;
};

class read_device {
public:
  explicit read_device(buffer_span s) : m_span(s) {}
  template <class T>
    requires std::is_trivially_copyable_v<T>
  void data(T& x) {
    bytes(&x, sizeof x);
  }
  template <class T>
    requires std::is_trivially_copyable_v<T>
  void data(T* p, size_type n) {
    bytes(p, n * sizeof(T));
  }
  void data(std::string& s) {
    s.resize(length());
    bytes(s.data(), s.size());
  }
  template <class T>
  void data(std::vector<T>& v) {
    v.resize(length());
    for (auto& x : v) {
      data(x);
    }
  }
  size_type left() const { return m_span.size() - m_at; }

private:
  size_type length() {
    std::int32_t n = 0;
    data(n);
    if (n < 0 || static_cast<size_type>(n) > left()) {
      SIO_THROW(error_code::out_of_range, "length beyond the end of the block");
    }
    return static_cast<size_type>(n);
  }
  void bytes(void* p, size_type n) {
    if (n > left()) {
      SIO_THROW(error_code::out_of_range, "reading beyond the end of the block");
    }
    if (n) {
      std::memcpy(p, m_span.data() + m_at, n);
    }
    m_at += n;
  }
  buffer_span m_span;
  size_type m_at{0};
};
} // namespace sio
#endif
