// Driver translation unit for the static analyses in /verif.  It is compiled to LLVM IR and never run.
// Every vroot_* function is one entry point a user of the library has; the analyses look at the
// library's own functions as expanded into these roots.
#include "fn_log.h"
#include <new>
#define VROOT extern "C" __attribute__((used))
using namespace FNLog;

// ---- life cycle
VROOT int vroot_start(Logger& l) { return StartLogger(l); }
VROOT int vroot_stop(Logger& l) { return StopLogger(l); }
VROOT int vroot_parse_and_start(Logger& l, const std::string& s) { return ParseAndStartLogger(l, s); }
VROOT int vroot_load_and_start(Logger& l, const std::string& s) { return LoadAndStartLogger(l, s); }
VROOT void vroot_logger_ctor(void* p) { new (p) Logger(); }
VROOT void vroot_logger_dtor(Logger& l) { l.~Logger(); }
VROOT int vroot_init_text(Logger& l, const std::string& s) { return InitFromYMAL(l, s, ""); }
VROOT int vroot_init_file(Logger& l, const std::string& s) { return InitFromYMALFile(l, s); }
VROOT int vroot_hot_update(Logger& l, int ch) { return HotUpdateLogger(l, ch); }
VROOT int vroot_default_load(const std::string& s) { return LoadAndStartDefaultLogger(s); }
VROOT int vroot_default_fast(const std::string& s) { return FastStartDefaultLogger(s); }
VROOT int vroot_default_fast0() { return FastStartDefaultLogger(); }
VROOT int vroot_default_debug() { return FastStartDebugLogger(); }

// ---- the queue
VROOT bool vroot_block(Logger& l, int ch, int pri, int cat, long long id) { return BlockInput(l, ch, pri, cat, id); }
VROOT int vroot_hold(Logger& l, int ch, int pri, int cat, long long id) { return HoldChannel(l, ch, pri, cat, id); }
VROOT int vroot_push(Logger& l, int ch, int idx) { return PushChannel(l, ch, idx); }
VROOT int vroot_transmit(Logger& l, int ch, int cat, long long id, const LogData& d) { return TransmitChannel(l, ch, cat, id, d); }
#ifndef VERIF_MIN
VROOT void vroot_proc(Logger& l, int ch) { EnterProcChannel(l, ch); }
VROOT int vroot_pushlog(Logger& l, int ch, int idx) { return PushLog(l, ch, idx); }
#endif

// ---- accessors
VROOT long long vroot_get_channel_log(Logger& l, int ch, int f) { return GetChannelLog(l, ch, (ChannelLogEnum)f); }
VROOT void vroot_set_channel_config(Logger& l, int ch, int f, long long v) { SetChannelConfig(l, ch, (ChannelConfigEnum)f, v); }
VROOT long long vroot_get_device_log(Logger& l, int ch, int d, int f) { return GetDeviceLog(l, ch, d, (DeviceLogEnum)f); }
VROOT void vroot_set_device_config(Logger& l, int ch, int d, int f, long long v) { SetDeviceConfig(l, ch, d, (DeviceConfigEnum)f, v); }
VROOT long long vroot_get_device_config(Logger& l, int ch, int d, int f) { return GetDeviceConfig(l, ch, d, (DeviceConfigEnum)f); }
VROOT void vroot_batch_channel(Logger& l, int f, long long v) { BatchSetChannelConfig(l, (ChannelConfigEnum)f, v); }
VROOT void vroot_batch_device(Logger& l, int t, int f, long long v) { BatchSetDeviceConfig(l, (DeviceOutType)t, (DeviceConfigEnum)f, v); }
VROOT void vroot_set_virtual(VirtualDevicePtr p) { SetVirtualDevice(p); }
VROOT VirtualDevicePtr* vroot_ref_virtual() { return &RefVirtualDevice(); }
VROOT std::string vroot_errno(int e) { return DebugErrno(e); }

// ---- records
VROOT void vroot_stream_ctor(void* p, Logger& l, int ch, int pri, int cat, long long id, const char* f, int fl, int line, const char* fn, int fnl, unsigned prefix)
{ new (p) LogStream(l, ch, pri, cat, id, f, fl, line, fn, fnl, prefix); }
VROOT void vroot_stream_move(void* p, LogStream& o) { new (p) LogStream(std::move(o)); }
VROOT void vroot_stream_dtor(LogStream& s) { s.~LogStream(); }
VROOT void vroot_stream_set_category(LogStream& s, int c) { s.set_category(c); }
VROOT void vroot_ls_buffer(LogStream& s, const char* p, int n) { s.write_buffer(p, n); }
VROOT void vroot_ls_pointer(LogStream& s, const void* p) { s.write_pointer(p); }
VROOT void vroot_ls_binary(LogStream& s, const char* p, int n) { s.write_binary(p, n); }
VROOT void vroot_ls_cstr(LogStream& s, const char* p) { s << p; }
VROOT void vroot_ls_ptr(LogStream& s, const void* p) { s << p; }
VROOT void vroot_ls_null(LogStream& s) { s << nullptr; }
VROOT void vroot_ls_char(LogStream& s, char v) { s << v; }
VROOT void vroot_ls_uchar(LogStream& s, unsigned char v) { s << v; }
VROOT void vroot_ls_bool(LogStream& s, bool v) { s << v; }
VROOT void vroot_ls_short(LogStream& s, short v) { s << v; }
VROOT void vroot_ls_ushort(LogStream& s, unsigned short v) { s << v; }
VROOT void vroot_ls_int(LogStream& s, int v) { s << v; }
VROOT void vroot_ls_uint(LogStream& s, unsigned v) { s << v; }
VROOT void vroot_ls_long(LogStream& s, long v) { s << v; }
VROOT void vroot_ls_ulong(LogStream& s, unsigned long v) { s << v; }
VROOT void vroot_ls_ll(LogStream& s, long long v) { s << v; }
VROOT void vroot_ls_ull(LogStream& s, unsigned long long v) { s << v; }
VROOT void vroot_ls_float(LogStream& s, float v) { s << v; }
VROOT void vroot_ls_double(LogStream& s, double v) { s << v; }
VROOT void vroot_ls_pair(LogStream& s, const std::pair<int, int>& v) { s << v; }
VROOT void vroot_ls_vector(LogStream& s, const std::vector<int>& v) { s << v; }
VROOT void vroot_ls_list(LogStream& s, const std::list<int>& v) { s << v; }
VROOT void vroot_ls_deque(LogStream& s, const std::deque<int>& v) { s << v; }
VROOT void vroot_ls_map(LogStream& s, const std::map<int, int>& v) { s << v; }
VROOT void vroot_ls_set(LogStream& s, const std::set<int>& v) { s << v; }
VROOT void vroot_ls_umap(LogStream& s, const std::unordered_map<int, int>& v) { s << v; }
VROOT void vroot_ls_uset(LogStream& s, const std::unordered_set<int>& v) { s << v; }
VROOT void vroot_ls_string(LogStream& s, const std::string& v) { s << v; }
VROOT void vroot_ls_blank(LogStream& s) { s << LogBlankAlign<40>(); s << LogBlankAlign<LogData::LOG_SIZE - 1>(); s << LogBlankAlign<2 * LogData::LOG_SIZE>(); }
VROOT void vroot_ls_percent(LogStream& s, const LogPercent& v) { s << v; }
VROOT void vroot_ls_timestamp(LogStream& s, const LogTimestamp& v) { s << v; }

// ---- complete statements, one per front end
VROOT void vroot_use_stream(int a, const char* b) { LogInfo() << a << b; }
VROOT void vroot_use_pack(int a, const char* b) { LogErrorPack(1, 2, 3, a, b); }
VROOT void vroot_use_macro(int a) { LOG_WARN(0, 1, 2, "x" << a); }
VROOT void vroot_use_format(int ch, int cat, long long id, const char* s) { LOGFMT_ALARM(ch, cat, id, "%s", s); }
VROOT void vroot_use_logger(Logger& l, int ch, int pri, int cat, long long id, unsigned prefix, int a)
{ LOG_STREAM_ORIGIN(l, ch, pri, cat, id, prefix) << a; }
VROOT void vroot_use_moved(Logger& l, int a)
{ LogStream s(LOG_STREAM_ORIGIN(l, 0, PRIORITY_INFO, 0, 0, LOG_PREFIX_ALL)); LogStream t(std::move(s)); t << a; }

#ifndef VERIF_MIN  // internal names: left out when they no longer compile, so that only the rules about them lose their anchor
// ---- formatters (bounds of what they write)
VROOT int vroot_fmt_dec0(char* d, unsigned long long n) { return write_dec_unsafe<0>(d, n); }
VROOT int vroot_fmt_sdec0(char* d, long long n) { return write_dec_unsafe<0>(d, n); }
VROOT int vroot_fmt_dec2(char* d, unsigned long long n) { return write_dec_unsafe<2>(d, n); }
VROOT int vroot_fmt_dec3(char* d, unsigned long long n) { return write_dec_unsafe<3>(d, n); }
VROOT int vroot_fmt_dec4(char* d, unsigned long long n) { return write_dec_unsafe<4>(d, n); }
VROOT int vroot_fmt_hex0(char* d, unsigned long long n) { return write_hex_unsafe<0>(d, n); }
VROOT int vroot_fmt_hex2(char* d, unsigned long long n) { return write_hex_unsafe<2>(d, n); }
VROOT int vroot_fmt_bin0(char* d, unsigned long long n) { return write_bin_unsafe<0>(d, n); }
VROOT int vroot_fmt_double(char* d, double n) { return write_double_unsafe(d, n); }
VROOT int vroot_fmt_date(char* d, long long t, unsigned p) { return write_date_unsafe(d, t, p); }
VROOT int vroot_fmt_priority(char* d, int p) { return write_log_priority_unsafe(d, p); }
VROOT int vroot_fmt_thread(char* d, unsigned t) { return write_log_thread_unsafe(d, t); }
VROOT int vroot_fmt_pointer(char* d, const void* p) { return write_pointer_unsafe(d, p); }

// ---- storage
VROOT int vroot_load_storage(Logger& l) { return LoadSharedMemory(l); }
VROOT void vroot_unload_storage(Logger& l) { UnloadSharedMemory(l); }

// ---- configuration text
VROOT int vroot_parse(LexState& ls, std::string& text) { return ParseLogger(ls, text); }

// ---- files and sockets
VROOT void vroot_file_dtor(FileHandler& f) { f.~FileHandler(); }
VROOT bool vroot_rollback(const std::string& p, int d, int m) { return FileHandler::rollback(p, d, m); }
VROOT std::string vroot_process_name() { return FileHandler::process_name(); }
VROOT std::string vroot_file_name(const std::string& n, const struct tm& t) { return MakeFileName(n, 0, 0, t); }
VROOT std::string vroot_path_name(const std::string& n, const struct tm& t) { return MakePathName(n, 0, 0, t); }
#endif
VROOT void vroot_udp_dtor(UDPHandler& u) { u.~UDPHandler(); }
