// In-memory EVFS file system: the recording, fault-injecting base VFS of the monitors.
// It is also the reference model for a well-behaved VFS.
#ifndef MEMFS_H
#define MEMFS_H
#include <unordered_map>
#include "vf.h"
extern "C" {
#include "evfs.h"
}

struct MemNode {
  bool dir = false;
  Str data;
  time_t mtime = 0;
  std::vector<std::pair<Str, std::shared_ptr<MemNode>>> kids; // creation order
  std::shared_ptr<MemNode> clone() const;
  std::shared_ptr<MemNode> find(const Str &n) const;
  mutable std::unordered_map<Str, size_t> index; mutable Str last; mutable size_t indexed = 0; // of large directories
};
typedef std::shared_ptr<MemNode> MemP;

struct MemOp {            // one call that reached the memfs
  Str op, path, path2; long a = 0, b = 0; long rval = 0;
  Str str() const;
};

struct MemFs {
  Evfs vfs;               // registered object
  Str name;
  MemP root;
  MemP cwd_node; std::vector<Str> cwd;
  bool record = false;
  std::vector<MemOp> log;
  long nops = 0;          // operations since arm()
  long open_files = 0, open_dirs = 0, unregistered = 0;
  // fault injection: from op number fault_at (1-based, counted since arm) for fault_len ops
  long fault_at = 0, fault_len = 1; int fault_code = EVFS_ERR_IO; bool fault_short = false; bool fault_hit = false; Str fault_op;
  Str fault_only;         // restrict to this kind of operation ("" = all)
  bool fault_effect = false; // the failing write stores a prefix
  bool scribble = false; // a short read leaves anything in the rest of the buffer
  long bad_lo = -1, bad_hi = -1; // bytes that cannot be read; a read that reaches them fails, or stops before them if fault_short
  long capacity = -1;     // bytes, -1 unlimited
  std::function<void(const MemOp &)> before;  // called before each operation
  bool buffered = false;      // writes reach the storage when the handle is synced or closed
  bool no_dots = true;
  bool dos_root = false;
  size_t max_path = 4096;
  bool list_sizes = true;
  bool root_extra = false;

  explicit MemFs(const Str &name);
  ~MemFs();
  MemFs(const MemFs &) = delete;
  int reg(bool dflt);
  void arm(long at, int code = EVFS_ERR_IO, bool short_io = false, long len = 1);
  void disarm();
  // direct access for oracles (no recording, no faults)
  MemP at(const Str &path) const;
  void put(const Str &path, const Str &data);       // creates parents
  void mkdirs(const Str &path);
  Str dump() const;                                  // canonical text of the whole tree
  Str dump(const Str &path) const;
  uint64_t fingerprint() const;
  long used() const;
  // segments of a path relative to cwd; "" on escape is clamped to root
  std::vector<Str> segs(const Str &path) const;
};
std::vector<Str> vf_split(const Str &p);             // split on / and backslash, drop empty
Str vf_join(const std::vector<Str> &v);              // "/a/b"
// reference canonical form of a path (POSIX root)
Str ref_normalize(const Str &p);

// ---- conveniences over the EVFS API ----
struct EvRead { int rv; Str data; };
EvRead ev_read_all(const char *path, const char *vfs, size_t chunk = 4096);
int ev_write_all(const char *path, const Str &data, const char *vfs, int flags = EVFS_WRITE | EVFS_OVERWRITE);
int ev_list(const char *path, const char *vfs, std::vector<Str> *names, std::vector<EvfsInfo> *infos = nullptr);
const char *ev_err(int e);
#endif
