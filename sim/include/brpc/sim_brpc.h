// Simulated brpc: channels, servers and streamed (progressive) responses run
// through the deterministic simulator (sim/src/sim_brpc.cc).
#pragma once
#include <google/protobuf/service.h>
#include <google/protobuf/message.h>
#include <cstdint>
#include <map>
#include <memory>
#include <string>
#include <vector>

#ifndef DECLARE_uint64
#define DECLARE_uint64(name) extern uint64_t FLAGS_##name
#define DECLARE_int64(name) extern int64_t FLAGS_##name
#endif
namespace butil {
class Status {
 public:
  Status() = default;
  template <typename... A>
  Status(int code, const std::string& msg) : code_(code), msg_(msg) {}
  static Status OK() { return {}; }
  bool ok() const { return code_ == 0; }
  int error_code() const { return code_; }
  std::string error_str() const { return ok() ? "OK" : msg_; }
  const char* error_cstr() const { return msg_.c_str(); }
 private:
  int code_ = 0;
  std::string msg_;
};
struct EndPoint { int port = 0; std::string host; };
struct EndPointStr { std::string s; const char* c_str() const { return s.c_str(); } };
inline EndPointStr endpoint2str(const EndPoint& e) { return {e.host + ":" + std::to_string(e.port)}; }
template <typename T> using intrusive_ptr = std::shared_ptr<T>;
}  // namespace butil
namespace brpc {
extern uint64_t FLAGS_max_body_size;
extern int64_t FLAGS_socket_max_unwritten_bytes;
struct SimStream;
struct CertInfo { std::string certificate, private_key; };
struct VerifyOptions { std::string ca_file_path; int verify_depth = 0; };
struct ChannelSSLOptions { CertInfo client_cert; VerifyOptions verify; };
struct ServerSSLOptions { CertInfo default_cert; VerifyOptions verify; };
struct ChannelOptions {
  std::string protocol;
  int32_t connect_timeout_ms = 200, timeout_ms = 500, max_retry = 3;
  std::string connection_type;
  ChannelSSLOptions* mutable_ssl_options() { if (!ssl) ssl = std::make_shared<ChannelSSLOptions>(); return ssl.get(); }
  std::shared_ptr<ChannelSSLOptions> ssl;
};
struct HttpHeader { std::map<std::string, std::string> h; void SetHeader(const std::string& k, const std::string& v) { h[k] = v; } };
class ProgressiveReader {
 public:
  virtual ~ProgressiveReader();  // reports destruction while OnEndOfMessage still runs
  virtual butil::Status OnReadOnePart(const void* data, size_t length) = 0;
  virtual void OnEndOfMessage(const butil::Status& status) = 0;
};
class ProgressiveAttachment {
 public:
  explicit ProgressiveAttachment(std::shared_ptr<SimStream> s) : s_(std::move(s)) {}
  ~ProgressiveAttachment();
  int Write(const void* data, size_t n);
  butil::EndPoint remote_side() const { return {0, "sim"}; }
 private:
  std::shared_ptr<SimStream> s_;
};
class Controller : public google::protobuf::RpcController {
 public:
  void Reset() override { code_ = 0; text_.clear(); }
  bool Failed() const override { return code_ != 0; }
  std::string ErrorText() const override { return text_; }
  int ErrorCode() const { return code_; }
  void StartCancel() override {}
  void SetFailed(const std::string& r) override { SetFailed(-1, r); }
  void SetFailed(int code, const std::string& r) { code_ = code; text_ = r; }
  bool IsCanceled() const override { return false; }
  void NotifyOnCancel(google::protobuf::Closure*) override {}
  void response_will_be_read_progressively() { progressive_ = true; }
  HttpHeader& http_request() { return http_; }
  void ReadProgressiveAttachmentBy(ProgressiveReader* r);
  butil::intrusive_ptr<ProgressiveAttachment> CreateProgressiveAttachment();
  butil::EndPoint remote_side() const { return {0, "sim"}; }
  std::shared_ptr<SimStream> stream_;
 private:
  bool progressive_ = false;
  int code_ = 0;
  std::string text_;
  HttpHeader http_;
};
class Channel : public google::protobuf::RpcChannel {
 public:
  int Init(const char* host, const ChannelOptions* o);
  void CallMethod(const google::protobuf::MethodDescriptor* m, google::protobuf::RpcController* c,
                  const google::protobuf::Message* req, google::protobuf::Message* rsp, google::protobuf::Closure* done) override;
 private:
  std::string host_;
  ChannelOptions o_;
};
enum ServiceOwnership { SERVER_OWNS_SERVICE, SERVER_DOESNT_OWN_SERVICE };
struct ServerOptions {
  bool has_builtin_services = true;
  ServerSSLOptions* mutable_ssl_options() { if (!ssl) ssl = std::make_shared<ServerSSLOptions>(); return ssl.get(); }
  std::shared_ptr<ServerSSLOptions> ssl;
};
class Server {
 public:
  ~Server();
  int AddService(google::protobuf::Service* s, ServiceOwnership o);
  const ServerOptions& options() const { return opt_; }
  int Start(int port, const ServerOptions* o);
  int Stop(int) ;
  int Join() { return 0; }
  void RunUntilAskedToQuit() {}
  google::protobuf::Service* service() const { return svc_; }
 private:
  google::protobuf::Service* svc_ = nullptr;
  bool owned_ = false;
  int port_ = -1;
  ServerOptions opt_;
};
class ClosureGuard {
 public:
  explicit ClosureGuard(google::protobuf::Closure* d) : d_(d) {}
  ~ClosureGuard() { if (d_) d_->Run(); }
  google::protobuf::Closure* release() { auto* d = d_; d_ = nullptr; return d; }
 private:
  google::protobuf::Closure* d_;
};
}  // namespace brpc
