// Query driver: log filters and delivery; parsed only, never linked or run.
#include <carl-logging/logging.h>
#include <carl-logging/Logger.h>
#include <carl-logging/logging.cpp>
using namespace carl::logging;
using S = std::string;
Filter q_mk() { return Filter(); }
void q_rule(Filter& f, const S& c, LogLevel l) { f(c, l); }
bool q_check(const Filter& f, const S& c, LogLevel l) { return f.check(c, l); }
void q_conf(const S& id, std::ostream& os) { logger().configure(id, os); }
void q_confsink(const S& id, std::shared_ptr<Sink> s) { logger().configure(id, s); }
std::shared_ptr<Sink> q_sink(std::ostream& os) { return std::make_shared<StreamSink>(os); }
bool q_has(const S& id) { return logger().has(id); }
Filter& q_filter(const S& id) { return logger().filter(id); }
void q_reset() { logger().resetFormatter(); }
bool q_visible(LogLevel l, const S& c) { return visible(l, c); }
void q_log(LogLevel l, const S& c, const std::stringstream& ss, const RecordInfo& i) { log(l, c, ss, i); }
bool q_lvisible(LogLevel l, const S& c) { return logger().visible(l, c); }
void q_llog(LogLevel l, const S& c, const std::stringstream& ss, const RecordInfo& i) { logger().log(l, c, ss, i); }
RecordInfo q_info() { return RecordInfo{"f.cpp", "fn", 7}; }
S q_level(LogLevel l) { std::stringstream s; s << l; return s.str(); }
#define Q_MACRO(n, M) void q_m_##n(const S& c) { M(c, "<<message>>"); }
Q_MACRO(trace, __CARL_LOG_TRACE)
Q_MACRO(debug, __CARL_LOG_DEBUG)
Q_MACRO(info, __CARL_LOG_INFO)
Q_MACRO(warn, __CARL_LOG_WARN)
Q_MACRO(error, __CARL_LOG_ERROR)
Q_MACRO(fatal, __CARL_LOG_FATAL)
Q_MACRO(func, __CARL_LOG_FUNC)
