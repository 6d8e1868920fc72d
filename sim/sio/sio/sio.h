// A stand-in for the SIO library (https://github.com/iLCSoft/SIO), which is
// not available here: the part of its interface podio uses, with its layout of
// records and blocks.  Streams are std::fstream, as in the library; what they
// do on the operating system goes to the simulated disk.
#ifndef SIM_SIO_H
#define SIM_SIO_H
#include <cstddef>
#include <cstdint>
#include <cstring>
#include <exception>
#include <fstream>
#include <map>
#include <memory>
#include <string>
#include <type_traits>
#include <utility>
#include <vector>

#define SIM_SIO_RAW __attribute__((no_sanitize("thread")))

namespace sio {
using byte = char;
using byte_array = std::vector<byte>;
using index_type = std::size_t;
using size_type = std::size_t;
using options_type = uint32_t;
using version_type = uint32_t;
using ifstream = std::ifstream;
using ofstream = std::ofstream;

constexpr std::size_t kbyte = 1024;
constexpr std::size_t mbyte = 1024 * 1024;
constexpr uint32_t record_marker = 0xabadcafe;
constexpr uint32_t block_marker = 0xdeadbeef;
constexpr uint32_t compression_bit = 0x00000001;
constexpr std::size_t max_record_name_len = 64;
constexpr std::size_t max_record_info_len = 6 * 4 + max_record_name_len;

enum class error_code { not_found, out_of_range, eof, bad_state, no_marker, io_failure, open_fail, not_open, already_open, bad_alloc, compress_error, invalid_argument };
class exception : public std::exception {
public:
  exception(error_code c, std::string m) : m_code(c), m_msg(std::move(m)) {}
  const char* what() const noexcept override { return m_msg.c_str(); }
  error_code code() const { return m_code; }

private:
  error_code m_code;
  std::string m_msg;
};
#define SIO_THROW(code, message) throw sio::exception(code, message)

namespace version {
inline constexpr version_type encode_version(uint32_t ma, uint32_t mi) { return (ma << 16) + mi; }
inline constexpr uint16_t major_version(version_type v) { return (v >> 16) & 0xffff; }
inline constexpr uint16_t minor_version(version_type v) { return v & 0xffff; }
} // namespace version

class buffer_span {
public:
  buffer_span() = default;
  buffer_span(const byte* p, size_type n) : m_p(p), m_n(n) {}
  const byte* data() const { return m_p; }
  size_type size() const { return m_n; }
  bool empty() const { return !m_n; }

private:
  const byte* m_p = nullptr;
  size_type m_n = 0;
};
class buffer {
public:
  using container = byte_array;
  // the megabyte podio starts with is only a first guess: less is faster here
  buffer(size_type n) : m_b(n == mbyte ? 4 * kbyte : n) {}
  buffer(container&& c) : m_b(std::move(c)) {}
  buffer(buffer&&) = default;
  buffer& operator=(buffer&&) = default;
  buffer(const buffer&) = delete;
  buffer& operator=(const buffer&) = delete;
  byte* data() { return m_b.data(); }
  const byte* data() const { return m_b.data(); }
  size_type size() const { return m_b.size(); }
  void resize(size_type n) { m_b.resize(n); }
  void clear() { m_b.clear(); }
  buffer_span span() const { return {m_b.data(), m_b.size()}; }
  buffer_span span(size_type from) const;
  buffer_span span(size_type from, size_type count) const;

private:
  container m_b;
};

// --- for the simulation: strings that are written as others
inline std::map<std::string, std::string> sim_strings;

class write_device {
public:
  explicit write_device(buffer&& b) : m_b(std::move(b)) {}
  buffer take_buffer() { return std::move(m_b); }
  size_type position() const { return m_pos; }
  void seek(size_type p) { m_pos = p; }
  void raw(const void* p, size_type n, size_type pad = 4);
  template <typename T> SIM_SIO_RAW void data(const T* p, size_type n) {
    if constexpr (std::is_arithmetic_v<T> && sizeof(T) > 1) {
      std::vector<unsigned char> t(n * sizeof(T));
      swap(p, t.data(), n, sizeof(T));
      raw(t.data(), t.size());
    } else raw(p, n * sizeof(T));
  }
  template <typename T> void data(const T& v) { data(&v, 1); }
  template <typename T> void data(const std::vector<T>& v) {
    data((int)v.size());
    if constexpr (std::is_arithmetic_v<T>) data(v.data(), v.size());
    else
      for (auto& x : v) data(x);
  }
  void data(const std::string& str) {
    const auto it = sim_strings.empty() ? sim_strings.end() : sim_strings.find(str);
    const std::string& s = it == sim_strings.end() ? str : it->second;
    data((int)s.size());
    raw(s.data(), s.size());
  }
  static void swap(const void* from, void* to, size_type n, size_type w);

private:
  buffer m_b;
  size_type m_pos = 0;
};
class read_device {
public:
  explicit read_device(buffer_span s) : m_s(s) {}
  size_type position() const { return m_pos; }
  void seek(size_type p) { m_pos = p; }
  void raw(void* p, size_type n, size_type pad = 4);
  template <typename T> SIM_SIO_RAW void data(T* p, size_type n) {
    if constexpr (std::is_arithmetic_v<T> && sizeof(T) > 1) {
      check(n * sizeof(T));
      std::vector<unsigned char> t(n * sizeof(T));
      raw(t.data(), t.size());
      write_device::swap(t.data(), p, n, sizeof(T));
    } else raw(p, n * sizeof(T));
  }
  template <typename T> void data(T& v) { data(&v, 1); }
  template <typename T> void data(std::vector<T>& v) {
    int n;
    data(n);
    check(n);
    v.resize(n);
    if constexpr (std::is_arithmetic_v<T>) data(v.data(), v.size());
    else
      for (auto& x : v) data(x);
  }
  void data(std::string& s) {
    int n;
    data(n);
    check(n);
    s.resize(n);
    raw(s.data(), n);
  }

private:
  void check(size_type n) const;
  buffer_span m_s;
  size_type m_pos = 0;
};

class block {
public:
  block(const std::string& n, version_type v) : m_name(n), m_version(v) {}
  virtual ~block() = default;
  block(const block&) = delete;
  block& operator=(const block&) = delete;
  const std::string& name() const { return m_name; }
  version_type version() const { return m_version; }
  virtual void read(read_device& device, version_type vers) = 0;
  virtual void write(write_device& device) = 0;

private:
  std::string m_name;
  version_type m_version;
};
using block_list = std::vector<std::shared_ptr<block>>;

struct record_info {
  ifstream::pos_type _file_start = 0;
  ifstream::pos_type _file_end = 0;
  uint32_t _header_length = 0;
  options_type _options = 0;
  uint32_t _data_length = 0;
  uint32_t _uncompressed_length = 0;
  std::string _name;
};

class compressor {
public:
  virtual ~compressor() = default;
  virtual void compress(const buffer_span& in, buffer& out) = 0;
  virtual void uncompress(const buffer_span& in, buffer& out) = 0;
};
class zlib_compression : public compressor {
public:
  void set_level(int l) { m_level = l; }
  void compress(const buffer_span& in, buffer& out) override;
  void uncompress(const buffer_span& in, buffer& out) override;

private:
  int m_level = -1;
};

// --- for the simulation: the versions that blocks are written with, by name
inline std::map<std::string, version_type> sim_versions;
/// for the simulation: called after a record was written
inline void (*sim_after_record)(ofstream&, const std::string& name) = nullptr;

namespace api {
record_info write_record(const std::string& name, buffer& rec_buf, const block_list& blocks, options_type opts);
void write_record(ofstream& stream, const buffer_span& rec_buf, record_info& rec_info);
void write_record(ofstream& stream, const buffer_span& hdr, const buffer_span& data, record_info& rec_info);
void compress_record(record_info& rec_info, buffer& rec_buf, buffer& comp_buf, compressor& comp);
void read_record_info(ifstream& stream, record_info& rec_info, buffer& outbuf);
void read_record_data(ifstream& stream, const record_info& rec_info, buffer& outbuf, size_type shift = 0);
void read_blocks(const buffer_span& rec_buf, const block_list& blocks);
void go_to_record(ifstream& stream, const std::string& name);
} // namespace api
} // namespace sio
#endif
