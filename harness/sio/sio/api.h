#ifndef VF_SIO_API_H
#define VF_SIO_API_H
#include "sio/block.h"
#include "sio/definitions.h"
#include "sio/io_device.h"
#include "sio/version.h"
#include <algorithm>
namespace sio {
class api {
  static buffer::container header(const record_info& i) {
    write_device d;
    d.data(i._header_length);
    d.data(record_marker);
    d.data(i._options);
    d.data(i._data_length);
    d.data(i._uncompressed_length);
    d.data(i._name);
    return std::move(d.out());
  }

public:
  // header and uncompressed blocks
  static record_info write_record(const std::string& name, buffer& rec, const block_list& blocks, options_type opts) {
    write_device body;
    for (const auto& b : blocks) {
      if (!b) {
        SIO_THROW(error_code::invalid_argument, "no block");
      }
      write_device d;
      b->write(d);
      body.data(block_marker);
      body.data(b->version());
      body.data(b->name());
      body.data(static_cast<std::uint32_t>(d.out().size()));
      body.data(d.out().data(), d.out().size());
    }
    record_info info;
    info._name = name;
    info._options = opts;
    info._data_length = info._uncompressed_length = static_cast<std::uint32_t>(body.out().size());
    info._header_length = static_cast<std::uint32_t>(header(info).size());
    auto all = header(info);
    all.insert(all.end(), body.out().begin(), body.out().end());
    rec = buffer(std::move(all));
    return info;
  }
  template <class Compression>
  static void compress_record(record_info& info, buffer& rec, buffer& com, Compression& c) {
    c.compress(rec.span(info._header_length, rec.size() - info._header_length), com);
    info._options |= compression_bit;
    info._data_length = static_cast<std::uint32_t>(com.size());
    const auto h = header(info);
    std::copy(h.begin(), h.end(), rec.data());
  }
  static void write_record(ofstream& s, const buffer_span& head, const buffer_span& data, record_info& info) {
    if (!s.is_open() || !s.good()) {
      SIO_THROW(error_code::bad_state, "the stream cannot be written");
    }
    info._file_start = s.tellp();
    s.write(head.data(), static_cast<std::streamsize>(head.size()));
    s.write(data.data(), static_cast<std::streamsize>(data.size()));
    info._file_end = s.tellp();
  }
  static void write_record(ofstream& s, const buffer_span& all, record_info& info) { write_record(s, all, buffer_span{}, info); }

  static void read_record_info(ifstream& s, record_info& info, buffer& buf) {
    if (!s.is_open()) {
      SIO_THROW(error_code::not_open, "the stream is not open");
    }
    if (!s.good()) {
      SIO_THROW(error_code::bad_state, "the stream is in a bad state");
    }
    info._file_start = s.tellg();
    auto get = [&](auto& x) {
      s.read(reinterpret_cast<char*>(&x), sizeof x);
      if (!s.good()) {
        SIO_THROW(s.eof() ? error_code::eof : error_code::io_failure, "cannot read the record header");
      }
    };
    std::uint32_t marker = 0;
    std::int32_t n = 0;
    get(info._header_length);
    get(marker);
    if (marker != record_marker) {
      SIO_THROW(error_code::no_marker, "no record marker");
    }
    get(info._options);
    get(info._data_length);
    get(info._uncompressed_length);
    get(n);
    if (n < 0 || static_cast<size_type>(n) > buf.size()) {
      SIO_THROW(error_code::io_failure, "bad record name");
    }
    info._name.resize(static_cast<size_type>(n));
    s.read(info._name.data(), n);
    if (!s.good()) {
      SIO_THROW(error_code::eof, "cannot read the record name");
    }
    info._file_end = info._file_start + static_cast<std::streamoff>(info._header_length + info._data_length);
  }
  static void read_record_data(ifstream& s, const record_info& info, buffer& buf) {
    if (!s.good()) {
      SIO_THROW(error_code::bad_state, "the stream is in a bad state");
    }
    s.seekg(info._file_start + static_cast<std::streamoff>(info._header_length));
    buf.resize(0);
    const auto at = s.tellg();
    s.seekg(0, std::ios_base::end);
    const auto left = s.tellg() - at;
    s.seekg(at);
    if (left < static_cast<std::streamoff>(info._data_length)) {
      s.setstate(std::ios_base::failbit | std::ios_base::eofbit);
      SIO_THROW(error_code::eof, "the record is not complete");
    }
    buf.resize(info._data_length);
    s.read(buf.data(), static_cast<std::streamsize>(info._data_length));
  }
  // blocks are found by name
  static void read_blocks(buffer_span data, const block_list& blocks) {
    while (data.size() > 0) {
      read_device d(data);
      std::uint32_t marker = 0, n = 0;
      version_type version = 0;
      std::string name;
      d.data(marker);
      if (marker != block_marker) {
        SIO_THROW(error_code::no_marker, "no block marker");
      }
      d.data(version);
      d.data(name);
      d.data(n);
      const auto at = data.size() - d.left();
      const auto it = std::find_if(blocks.begin(), blocks.end(), [&](const auto& b) { return b && b->name() == name; });
      if (it != blocks.end()) {
        read_device b(data.subspan(at, n));
        (*it)->read(b, version);
      }
      data = data.subspan(at + n, data.size() - at - n);
    }
  }
  // leaves the stream at the beginning of the next record with the name
  static void go_to_record(ifstream& s, const std::string& name) {
    buffer buf{max_record_info_len};
    while (true) {
      record_info info;
      read_record_info(s, info, buf);
      if (info._name == name) {
        s.seekg(info._file_start);
        return;
      }
      s.seekg(info._file_end);
    }
  }
};
} // namespace sio
#endif
