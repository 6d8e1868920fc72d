#include <sio/sio.h>
#include <algorithm>
#include <zlib.h>

namespace sio {
buffer_span buffer::span(size_type from) const { return span(from, m_b.size() - from); }
buffer_span buffer::span(size_type from, size_type count) const {
  if (from > m_b.size() || count > m_b.size() - from) SIO_THROW(error_code::out_of_range, "span beyond the end of a buffer");
  return {m_b.data() + from, count};
}
void write_device::swap(const void* from, void* to, size_type n, size_type w) {
  auto* f = static_cast<const unsigned char*>(from);
  auto* t = static_cast<unsigned char*>(to);
  for (size_type i = 0; i < n; ++i)
    for (size_type k = 0; k < w; ++k) t[i * w + k] = f[i * w + w - 1 - k];
}
void write_device::raw(const void* p, size_type n, size_type pad) {
  const size_type padded = (n + pad - 1) / pad * pad;
  if (m_pos + padded > m_b.size()) m_b.resize(std::max(m_b.size() * 2, m_pos + padded));
  if (n) memcpy(m_b.data() + m_pos, p, n);
  memset(m_b.data() + m_pos + n, 0, padded - n);
  m_pos += padded;
}
void read_device::check(size_type n) const {
  if (m_pos > m_s.size() || n > m_s.size() - m_pos) SIO_THROW(error_code::out_of_range, "read beyond the end of a buffer");
}
void read_device::raw(void* p, size_type n, size_type pad) {
  const size_type padded = (n + pad - 1) / pad * pad;
  check(padded);
  if (n) memcpy(p, m_s.data() + m_pos, n);
  m_pos += padded;
}

namespace {
// The working memory of zlib is set up before the execution starts: zlib runs
// to its end between two switch points, so one of each is enough
struct Zlib {
  z_stream c[10] = {}, u = {};
  Zlib() {
    ::deflateInit(&c[6], 6);
    ::inflateInit(&u);
  }
  z_stream& deflater(int level) {
    level = level < 0 || level > 9 ? 6 : level;
    if (!c[level].state) ::deflateInit(&c[level], level);
    ::deflateReset(&c[level]);
    return c[level];
  }
} zs;
} // namespace
void zlib_compression::compress(const buffer_span& in, buffer& out) {
  auto& z = zs.deflater(m_level);
  const auto bound = ::deflateBound(&z, in.size());
  if (out.size() < bound) out.resize(bound);
  z.next_in = (Bytef*)in.data();
  z.avail_in = in.size();
  z.next_out = (Bytef*)out.data();
  z.avail_out = out.size();
  if (::deflate(&z, Z_FINISH) != Z_STREAM_END) SIO_THROW(error_code::compress_error, "zlib compression failed");
  out.resize(z.total_out);
}
void zlib_compression::uncompress(const buffer_span& in, buffer& out) {
  auto& z = zs.u;
  ::inflateReset(&z);
  Bytef none;
  z.next_in = (Bytef*)in.data();
  z.avail_in = in.size();
  z.next_out = out.size() ? (Bytef*)out.data() : &none;
  z.avail_out = out.size() ? out.size() : 1;
  const auto r = ::inflate(&z, Z_FINISH);
  if (r != Z_STREAM_END || z.total_out > out.size()) SIO_THROW(error_code::compress_error, "zlib uncompression failed with status " + std::to_string(r));
  out.resize(z.total_out);
}

namespace {
void header(write_device& d, const record_info& i) {
  d.data((uint32_t)0);
  d.data(record_marker);
  d.data(i._options);
  d.data(i._data_length);
  d.data(i._uncompressed_length);
  d.data((uint32_t)i._name.size());
  d.raw(i._name.data(), i._name.size());
  const uint32_t len = d.position();
  d.seek(0);
  d.data(len);
  d.seek(len);
}
} // namespace

namespace api {
record_info write_record(const std::string& name, buffer& rec_buf, const block_list& blocks, options_type opts) {
  if (name.empty() || name.size() > max_record_name_len) SIO_THROW(error_code::invalid_argument, "invalid record name '" + name + "'");
  record_info info;
  info._name = name;
  info._options = opts & ~compression_bit;
  write_device d(std::move(rec_buf));
  try {
    header(d, info);
    info._header_length = d.position();
    for (auto& b : blocks) {
      const auto start = d.position();
      d.data((uint32_t)0);
      d.data(block_marker);
      const std::string n = b->name();
      const auto it = sim_versions.find(n);
      d.data((uint32_t)(it == sim_versions.end() ? b->version() : it->second));
      d.data((uint32_t)n.size());
      d.raw(n.data(), n.size());
      b->write(d);
      const auto end = d.position();
      d.seek(start);
      d.data((uint32_t)(end - start));
      d.seek(end);
    }
    const auto end = d.position();
    info._data_length = info._uncompressed_length = end - info._header_length;
    d.seek(0);
    header(d, info);
    rec_buf = d.take_buffer();
    rec_buf.resize(end);
  } catch (...) {
    rec_buf = d.take_buffer();
    throw;
  }
  return info;
}
void write_record(ofstream& stream, const buffer_span& hdr, const buffer_span& data, record_info& info) {
  if (!stream.is_open()) SIO_THROW(error_code::not_open, "the output stream is not open");
  if (!stream.good()) SIO_THROW(error_code::bad_state, "the output stream is in a bad state");
  info._file_start = stream.tellp();
  stream.write(hdr.data(), hdr.size());
  stream.write(data.data(), data.size());
  if (!stream.good()) SIO_THROW(error_code::bad_state, "the output stream is in a bad state after writing");
  info._file_end = stream.tellp();
  if (sim_after_record) sim_after_record(stream, info._name);
}
void write_record(ofstream& stream, const buffer_span& rec, record_info& info) {
  write_record(stream, buffer_span{rec.data(), info._header_length}, buffer_span{rec.data() + info._header_length, rec.size() - info._header_length}, info);
}
void compress_record(record_info& info, buffer& rec_buf, buffer& comp_buf, compressor& comp) {
  comp.compress(rec_buf.span(info._header_length, info._uncompressed_length), comp_buf);
  info._data_length = comp_buf.size();
  info._options |= compression_bit;
  // write the header again, in place
  write_device d(buffer(info._header_length));
  header(d, info);
  auto h = d.take_buffer();
  memcpy(rec_buf.data(), h.data(), info._header_length);
}
void read_record_info(ifstream& stream, record_info& info, buffer& outbuf) {
  if (!stream.is_open()) SIO_THROW(error_code::not_open, "the input stream is not open");
  if (!stream.good()) SIO_THROW(error_code::bad_state, "the input stream is in a bad state");
  if (outbuf.size() < max_record_info_len) outbuf.resize(max_record_info_len);
  info._file_start = stream.tellg();
  auto get = [&](size_type at, size_type n) {
    stream.read(outbuf.data() + at, n);
    if (stream.eof()) SIO_THROW(error_code::eof, "end of the file reached");
    if (!stream.good()) SIO_THROW(error_code::bad_state, "the input stream is in a bad state");
  };
  get(0, 8);
  uint32_t marker = 0, name_len = 0;
  read_device d(buffer_span(outbuf.data(), 8));
  d.data(info._header_length);
  d.data(marker);
  if (marker != record_marker) SIO_THROW(error_code::no_marker, "record marker not found");
  if (info._header_length > max_record_info_len || info._header_length < 24) SIO_THROW(error_code::io_failure, "impossible length of a record header");
  get(8, info._header_length - 8);
  read_device r(buffer_span(outbuf.data(), info._header_length));
  r.seek(8);
  r.data(info._options);
  r.data(info._data_length);
  r.data(info._uncompressed_length);
  r.data(name_len);
  if (name_len > max_record_name_len) SIO_THROW(error_code::io_failure, "impossible length of a record name");
  info._name.resize(name_len);
  r.raw(info._name.data(), name_len);
  info._file_end = info._file_start + (std::streamoff)(info._header_length + info._data_length);
}
void read_record_data(ifstream& stream, const record_info& info, buffer& outbuf, size_type shift) {
  if (!stream.is_open()) SIO_THROW(error_code::not_open, "the input stream is not open");
  if (!stream.good()) SIO_THROW(error_code::bad_state, "the input stream is in a bad state");
  stream.seekg(info._file_start + (std::streamoff)info._header_length);
  outbuf.resize(shift + info._data_length);
  stream.read(outbuf.data() + shift, info._data_length);
  if (stream.eof()) SIO_THROW(error_code::eof, "end of the file reached");
  if (!stream.good()) SIO_THROW(error_code::bad_state, "the input stream is in a bad state");
}
void read_blocks(const buffer_span& rec, const block_list& blocks) {
  size_type pos = 0;
  while (pos < rec.size()) {
    read_device d(buffer_span(rec.data() + pos, rec.size() - pos));
    uint32_t len, marker, vers, nlen;
    d.data(len);
    d.data(marker);
    if (marker != block_marker) SIO_THROW(error_code::no_marker, "block marker not found");
    if (len > rec.size() - pos || len < 16) SIO_THROW(error_code::io_failure, "impossible length of a block");
    d.data(vers);
    d.data(nlen);
    if (nlen > len - 16) SIO_THROW(error_code::io_failure, "impossible length of a block name");
    std::string name(nlen, 0);
    d.raw(name.data(), nlen);
    auto it = std::find_if(blocks.begin(), blocks.end(), [&](const auto& b) { return b->name() == name; });
    if (it != blocks.end()) {
      read_device b(buffer_span(rec.data() + pos, len));
      b.seek(d.position());
      (*it)->read(b, vers);
    }
    pos += len;
  }
}
void go_to_record(ifstream& stream, const std::string& name) {
  while (1) {
    record_info info;
    buffer b(max_record_info_len);
    read_record_info(stream, info, b);
    if (info._name == name) {
      stream.seekg(info._file_start);
      return;
    }
    stream.seekg(info._file_end);
  }
}
} // namespace api
} // namespace sio
