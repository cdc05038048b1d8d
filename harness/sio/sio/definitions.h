// A stand-in for the SIO library (which is not installed here): the part of its
// interface that podio uses. Records and blocks are laid out as a real byte
// stream; files are kept in memory, so that every prefix of one can be tried.
#ifndef VF_SIO_DEFINITIONS_H
#define VF_SIO_DEFINITIONS_H

#include <cstdint>
#include <cstring>
#include <fstream>
#include <istream>
#include <map>
#include <memory>
#include <ostream>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>

namespace sio {
using byte = char;
using size_type = std::size_t;
using version_type = std::uint32_t;
using options_type = std::uint32_t;

constexpr size_type kbyte = 1024;
constexpr size_type mbyte = 16 * kbyte; // only used for the first size of buffers, which grow; keeps executions cheap
constexpr size_type max_record_info_len = 512;
constexpr std::uint32_t record_marker = 0xabadcafe;
constexpr std::uint32_t block_marker = 0xdeadbeef;
constexpr options_type compression_bit = 1;

enum class error_code { no_error, not_open, bad_state, eof, no_marker, io_failure, invalid_argument, compress_error, out_of_range };

class exception : public std::runtime_error {
public:
  exception(error_code c, const std::string& m) : std::runtime_error(m), m_code(c) {}
  error_code code() const { return m_code; }

private:
  error_code m_code;
};
#define SIO_THROW(code, message) throw sio::exception(code, message)

// ------------------------------------------------------------ files in memory
inline std::map<std::string, std::string>& files() {
  static std::map<std::string, std::string> f;
  return f;
}

class ifstream : public std::istream {
public:
  using pos_type = std::istream::pos_type;
  ifstream() : std::istream(nullptr) { rdbuf(&m_buf); }
  void open(const std::string& name, std::ios_base::openmode = std::ios_base::in) {
    auto it = files().find(name);
    if (m_open || it == files().end()) {
      setstate(std::ios_base::failbit);
      return;
    }
    m_buf = std::stringbuf(it->second, std::ios_base::in | std::ios_base::binary);
    rdbuf(&m_buf);
    clear();
    m_open = true;
  }
  bool is_open() const { return m_open; }
  void close() { m_open = false; }

private:
  std::stringbuf m_buf;
  bool m_open{false};
};

class ofstream : public std::ostream {
public:
  using pos_type = std::ostream::pos_type;
  ofstream() : std::ostream(nullptr) { rdbuf(&m_buf); }
  ~ofstream() override { close(); }
  void open(const std::string& name, std::ios_base::openmode = std::ios_base::out) {
    if (m_open || name.empty()) {
      setstate(std::ios_base::failbit);
      return;
    }
    m_buf = std::stringbuf(std::ios_base::out | std::ios_base::binary);
    rdbuf(&m_buf);
    clear();
    m_name = name;
    m_open = true;
    files()[name].clear();
  }
  bool is_open() const { return m_open; }
  void close() {
    if (m_open) {
      files()[m_name] = m_buf.str();
      m_open = false;
      setstate(std::ios_base::failbit); // nothing more can be written
    }
  }

private:
  std::stringbuf m_buf;
  std::string m_name;
  bool m_open{false};
};

// ------------------------------------------------------------ memory
class buffer_span {
public:
  buffer_span() = default;
  buffer_span(const byte* p, size_type n) : m_p(p), m_n(n) {}
  const byte* data() const { return m_p; }
  size_type size() const { return m_n; }
  buffer_span subspan(size_type start, size_type n) const {
    if (start > m_n || n > m_n - start) {
      SIO_THROW(error_code::out_of_range, "span out of range");
    }
    return {m_p + start, n};
  }

private:
  const byte* m_p{nullptr};
  size_type m_n{0};
};

class buffer {
public:
  using container = std::vector<byte>;
  explicit buffer(size_type n) : m_bytes(n) {}
  buffer(container&& c) : m_bytes(std::move(c)) {}
  buffer(const buffer&) = delete;
  buffer& operator=(const buffer&) = delete;
  buffer(buffer&&) = default;
  buffer& operator=(buffer&&) = default;
  const byte* data() const { return m_bytes.data(); }
  byte* data() { return m_bytes.data(); }
  size_type size() const { return m_bytes.size(); }
  void resize(size_type n) { m_bytes.resize(n); }
  buffer_span span() const { return {m_bytes.data(), m_bytes.size()}; }
  buffer_span span(size_type start, size_type n) const { return span().subspan(start, n); }

private:
  container m_bytes;
};

struct record_info {
  std::uint32_t _header_length{0};
  options_type _options{0};
  std::uint32_t _data_length{0};
  std::uint32_t _uncompressed_length{0};
  std::string _name{};
  std::ifstream::pos_type _file_start{0};
  std::ifstream::pos_type _file_end{0};
};

class block;
using block_list = std::vector<std::shared_ptr<block>>;
} // namespace sio
#endif
