// Stand-in for the parts of absl/log used by mpact-sim: LOG(severity) << ...,
// LOG_IF, DLOG, VLOG, CHECK*, DCHECK*, LogSink and its registry.
// FATAL aborts, as in abseil. Messages are counted per severity.
#ifndef VERIF_SHIM_LOG_H_
#define VERIF_SHIM_LOG_H_
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <ctime>
#include <mutex>
#include <ostream>
#include <sstream>
#include <string>
#include <vector>
#include <algorithm>
#include <type_traits>
#include "absl/base/log_severity.h"
#include "absl/strings/string_view.h"
#include "absl/time/time.h"
#include "absl/time/clock.h"

namespace absl {
struct LogEntry {
  absl::LogSeverity severity_ = absl::LogSeverity::kInfo;
  std::string file_, msg_, full_, full_nl_;
  int line_ = 0;
  absl::LogSeverity log_severity() const { return severity_; }
  absl::string_view source_filename() const { return file_; }
  absl::string_view source_basename() const { return file_; }
  int source_line() const { return line_; }
  bool prefix() const { return true; }
  int verbosity() const { return -1; }
  absl::Time timestamp() const { return absl::Now(); }
  absl::string_view text_message() const { return msg_; }
  absl::string_view text_message_with_prefix() const { return full_; }
  absl::string_view text_message_with_prefix_and_newline() const {
    return full_nl_;
  }
  absl::string_view stacktrace() const { return ""; }
};
class LogSink {
 public:
  virtual ~LogSink() = default;
  virtual void Send(const absl::LogEntry& entry) = 0;
  virtual void Flush() {}
};
}  // namespace absl

namespace verif_shim {
struct LogState {
  std::mutex mu;
  std::vector<absl::LogSink*> sinks;
  uint64_t count[4] = {0, 0, 0, 0};
  bool quiet = true;
};
inline LogState& log_state() {
  static LogState* s = new LogState();
  return *s;
}
class LogMessage {
 public:
  LogMessage(const char* file, int line, absl::LogSeverity s)
      : file_(file), line_(line), s_(s) {}
  template <typename T>
  LogMessage& operator<<(const T& t) {
    if constexpr (std::is_convertible_v<const T&, absl::string_view>) {
      absl::string_view sv = t;
      os_.write(sv.data(), sv.size());
    } else if constexpr (std::is_enum_v<T>) {
      os_ << static_cast<int64_t>(t);
    } else {
      os_ << t;
    }
    return *this;
  }
  LogMessage& operator<<(std::ostream& (*m)(std::ostream&)) {
    os_ << m;
    return *this;
  }
  LogMessage& operator<<(std::ios_base& (*m)(std::ios_base&)) {
    os_ << m;
    return *this;
  }
  LogMessage& stream() { return *this; }
  LogMessage& internal_stream() { return *this; }
  ~LogMessage() {
    auto& st = log_state();
    int i = static_cast<int>(s_);
    if (i < 0) i = 0;
    if (i > 3) i = 3;
    std::vector<absl::LogSink*> sinks;
    {
      std::lock_guard<std::mutex> l(st.mu);
      st.count[i]++;
      sinks = st.sinks;
    }
    absl::LogEntry e;
    e.severity_ = s_;
    e.file_ = file_;
    e.line_ = line_;
    e.msg_ = os_.str();
    e.full_ = std::string(1, "IWEF"[i]) + " " + e.file_ + ":" +
              std::to_string(line_) + "] " + e.msg_;
    e.full_nl_ = e.full_ + "\n";
    for (auto* s : sinks) s->Send(e);
    if (!st.quiet || i == 3) fprintf(stderr, "%s", e.full_nl_.c_str());
    if (i == 3) abort();
  }

 private:
  std::ostringstream os_;
  const char* file_;
  int line_;
  absl::LogSeverity s_;
};
struct Voidify {
  template <typename T>
  void operator&&(T&&) const {}
};
}  // namespace verif_shim

namespace absl {
inline void AddLogSink(LogSink* s) {
  auto& st = verif_shim::log_state();
  std::lock_guard<std::mutex> l(st.mu);
  st.sinks.push_back(s);
}
inline void RemoveLogSink(LogSink* s) {
  auto& st = verif_shim::log_state();
  std::lock_guard<std::mutex> l(st.mu);
  st.sinks.erase(std::remove(st.sinks.begin(), st.sinks.end(), s),
                 st.sinks.end());
}
inline void FlushLogSinks() {}
inline void InitializeLog() {}
inline void SetStderrThreshold(int) {}
}  // namespace absl

#define VSHIM_SEV_INFO ::absl::LogSeverity::kInfo
#define VSHIM_SEV_WARNING ::absl::LogSeverity::kWarning
#define VSHIM_SEV_ERROR ::absl::LogSeverity::kError
#define VSHIM_SEV_FATAL ::absl::LogSeverity::kFatal
#define VSHIM_SEV_DFATAL ::absl::LogSeverity::kError
#define VSHIM_MSG(s) \
  ::verif_shim::LogMessage(__FILE__, __LINE__, VSHIM_SEV_##s)
#define VSHIM_COND(s, c) \
  switch (0)             \
  case 0:                \
  default:               \
    !(c) ? (void)0 : ::verif_shim::Voidify() && VSHIM_MSG(s)
#define LOG(s) VSHIM_COND(s, true)
#define LOG_IF(s, c) VSHIM_COND(s, c)
#define PLOG(s) LOG(s)
#define PLOG_IF(s, c) LOG_IF(s, c)
#define DLOG(s) VSHIM_COND(s, false)
#define DLOG_IF(s, c) VSHIM_COND(s, false)
#define VLOG(n) VSHIM_COND(INFO, false)
#define DVLOG(n) VLOG(n)
#define VLOG_IS_ON(n) false
#define LOG_FIRST_N(s, n) LOG(s)
#define LOG_EVERY_N(s, n) LOG(s)
#define LOG_EVERY_N_SEC(s, n) LOG(s)
#define CHECK(c) VSHIM_COND(FATAL, !(c)) << "Check failed: " #c " "
#define QCHECK(c) CHECK(c)
#define PCHECK(c) CHECK(c)
#define CHECK_OP_(a, op, b) CHECK((a)op(b))
#define CHECK_EQ(a, b) CHECK_OP_(a, ==, b)
#define CHECK_NE(a, b) CHECK_OP_(a, !=, b)
#define CHECK_LT(a, b) CHECK_OP_(a, <, b)
#define CHECK_LE(a, b) CHECK_OP_(a, <=, b)
#define CHECK_GT(a, b) CHECK_OP_(a, >, b)
#define CHECK_GE(a, b) CHECK_OP_(a, >=, b)
#define CHECK_OK(e) CHECK((e).ok())
#define QCHECK_OK(e) CHECK_OK(e)
#define DCHECK(c) CHECK(c)
#define DCHECK_EQ(a, b) CHECK_EQ(a, b)
#define DCHECK_NE(a, b) CHECK_NE(a, b)
#define DCHECK_LT(a, b) CHECK_LT(a, b)
#define DCHECK_LE(a, b) CHECK_LE(a, b)
#define DCHECK_GT(a, b) CHECK_GT(a, b)
#define DCHECK_GE(a, b) CHECK_GE(a, b)
#define DCHECK_OK(e) CHECK_OK(e)
#endif
