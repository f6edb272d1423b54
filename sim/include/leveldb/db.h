// Simulated leveldb: an in-memory key/value store behind a faulty disk.
#pragma once
#include <cstddef>
#include <map>
#include <string>
namespace leveldb {
enum CompressionType { kNoCompression = 0, kSnappyCompression = 1 };
class Slice {
 public:
  Slice() = default;
  Slice(const char* d, size_t n) : d_(d), n_(n) {}
  Slice(const std::string& s) : d_(s.data()), n_(s.size()) {}  // NOLINT
  Slice(const char* s) : Slice(std::string_view(s).data(), std::string_view(s).size()) {}  // NOLINT
  const char* data() const { return d_; }
  size_t size() const { return n_; }
  std::string ToString() const { return std::string(d_, n_); }
 private:
  const char* d_ = "";
  size_t n_ = 0;
};
class Status {
 public:
  Status() = default;
  static Status OK() { return {}; }
  static Status NotFound(const std::string& m) { return Status(1, m); }
  static Status Corruption(const std::string& m) { return Status(2, m); }
  static Status IOError(const std::string& m) { return Status(5, m); }
  bool ok() const { return c_ == 0; }
  bool IsNotFound() const { return c_ == 1; }
  bool IsIOError() const { return c_ == 5; }
  std::string ToString() const { return ok() ? "OK" : m_; }
 private:
  Status(int c, std::string m) : c_(c), m_(std::move(m)) {}
  int c_ = 0;
  std::string m_;
};
struct Options { bool create_if_missing = false, error_if_exists = false; CompressionType compression = kSnappyCompression; size_t block_size = 4096; size_t write_buffer_size = 4 << 20; };
struct ReadOptions { bool verify_checksums = false; bool fill_cache = true; const void* snapshot = nullptr; };
struct WriteOptions { bool sync = false; };
class DB {
 public:
  static Status Open(const Options&, const std::string& name, DB** out);
  virtual ~DB();
  virtual Status Put(const WriteOptions&, const Slice& k, const Slice& v);
  virtual Status Delete(const WriteOptions&, const Slice& k);
  virtual Status Get(const ReadOptions&, const Slice& k, std::string* v);
 private:
  std::map<std::string, std::string> m_;
  size_t bytes_ = 0;
};
}  // namespace leveldb
