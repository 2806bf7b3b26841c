// Simulated kernel: descriptors, sockets, message queues, files, memory accounting.
#pragma once
#include "rt.h"
#include <sys/types.h>
#include <sys/stat.h>

namespace sim {

struct FaultCfg {       // one in N; 0 = off
  u32 accept_err = 0, accept_eintr = 0, accept_emfile = 0, recv_short = 0, recv_eintr = 0, send_short = 0, send_eintr = 0,
      mq_eintr = 0, open_err = 0, stat_err = 0, mmap_err = 0, read_short = 0, malloc_fail = 0, start_fail = 0;
};
extern FaultCfg fc;

struct Conn;
struct ClientIface {            // what the network tells a client
  virtual void on_connected(Conn*) = 0;
  virtual void on_refused() = 0;
  virtual void on_data(const char* p, size_t n) = 0;   // bytes reach the client's kernel
  virtual void on_eof() = 0;
  virtual void on_reset() = 0;
  virtual ~ClientIface() {}
};

struct SockOpts { i64 rcvto = 0, sndto = 0; size_t lowat = 1; bool linger0 = false, reuse = false; };   // inherited by accepted sockets, as on Linux
struct File {
  SockOpts so;
  enum T { LISTEN, CONN, MQ, REG, DIR_, SOCK, PIPE } type; int flags = 0; int openfds = 0; u64 serial = 0;
  explicit File(T t) : type(t) {}
  virtual ~File() {}
  virtual void last_close() {}          // no descriptor refers to it any more
};
typedef std::shared_ptr<File> FileP;

struct Conn {                            // server side of one TCP connection
  int id; ClientIface* cl; 
  std::string rx; size_t rxoff = 0; bool rx_eof = false, rx_reset = false;
  size_t sndcap = 65536, inflight = 0;   // bytes in the socket's send buffer (not yet drained by the client)
  u64 total_tx = 0, total_rx = 0;
  bool accepted = false, srv_closed = false, shut_wr = false, peer_gone = false, rst_known = false, queued = false, aborted = false;
  int fd = -1; i64 t_accept = -1, t_close = -1;
  i64 lat = 50000; i64 last_deliver = 0;
  int closes = 0; bool err_seen = false; bool fatal_seen = false;
};
struct ConnFile : File { std::shared_ptr<Conn> c; explicit ConnFile(std::shared_ptr<Conn> c_) : File(CONN), c(c_) {} void last_close() override; };
struct ListenFile : File {
  int port = -1; bool bound = false, listening = false, shut = false; std::deque<std::shared_ptr<Conn>> q;
  ListenFile() : File(LISTEN) {} ~ListenFile() override;
};
struct MqMsg { std::string d; u32 prio; u64 seq; };
struct MqWaiter { Fiber* f; MqMsg m; bool done = false; };
struct Mq { std::string name; size_t maxmsg, msgsize; int mode; std::deque<MqMsg> q; std::deque<MqWaiter*> recvw, sendw; bool unlinked = false; u64 seq = 0; };
struct MqFile : File { std::shared_ptr<Mq> m; explicit MqFile(std::shared_ptr<Mq> m_) : File(MQ), m(m_) {} };
struct Blob { std::vector<char> d; i64 mtime = 0; u64 ino = 0; mode_t mode = 0100644; };
typedef std::shared_ptr<Blob> BlobP;
struct RegFile : File { BlobP b; off_t pos = 0; std::string path; explicit RegFile(BlobP b_) : File(REG), b(b_) {} };

struct Vfs {
  std::map<std::string, BlobP> files;
  struct Ver { i64 from; BlobP b; };                      // b == null: absent
  std::map<std::string, std::vector<Ver>> hist;
  void put(const std::string& path, std::vector<char> data, i64 mtime = 1600000000);
  void remove(const std::string& path);
  std::map<std::string, std::string> links;                // symbolic links, to files
  const std::string& real(const std::string& p) { auto it = links.find(p); return it == links.end() ? p : it->second; }
};
extern Vfs vfs;

struct Kernel {
  std::vector<FileP> fds; std::vector<u64> gen; int limit = 1024;
  std::map<std::string, std::shared_ptr<Mq>> mqs;
  std::set<ListenFile*> listeners;
  std::map<char*, size_t> maps;           // live mappings: start -> bytes
  std::vector<std::shared_ptr<Conn>> conns;
  u64 serial = 0; std::function<void()> on_close;
  int alloc_fd(FileP f);
  FileP get(int fd);
  int nopen() { int n = 0; for (auto& f : fds) if (f) n++; return n; }
  std::string describe_open();
};
extern Kernel K;

// network side used by clients
std::shared_ptr<Conn> net_connect(ClientIface* cl, int port, i64 latency, size_t sndcap);
void net_client_data(std::shared_ptr<Conn>, std::string bytes);   // arrives now at the server
void net_client_fin(std::shared_ptr<Conn>);                        // arrives now
void net_client_rst(std::shared_ptr<Conn>);                        // arrives now
void net_client_consumed(std::shared_ptr<Conn>, size_t n);         // client drained n bytes: frees server send buffer

// memory accounting
struct AllocStat { i64 live = 0, bytes = 0; u64 total = 0; i64 regex = 0; };
extern AllocStat alloc;
extern bool heap_reuse;           // freed blocks are handed out again at once
extern i64 malloc_fail_at;      // fail the n-th allocation from now (0 = off); reset when fired
extern u64 malloc_fired;
std::string live_alloc_summary(u64 since_serial);
u64 alloc_serial();
void alloc_mark_baseline();
extern bool sigpipe_ignored;
extern std::string cap_out, cap_err;   // captured stdout/stderr
void flush_std();
struct LogWrite { int fiber; i64 mono; size_t off, len; i64 clock_read, prev_write; bool err; };
extern std::vector<LogWrite> logw;
extern std::function<void(const char* what, int fd)> fd_misuse;
void persist_queues(); void restore_queues();
i64 map_pages();
}  // namespace sim
