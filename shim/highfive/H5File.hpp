// Stand-in for BlueBrain/HighFive 2.2.2 + HDF5 (neither is available offline).
// A *recording* backend: it keeps the object tree in memory, enforces the
// error behaviour of the real library on the calls PicoPIC makes (exclusive
// create, create-existing-group, out-of-extent selections, use of a closed
// file ...), counts how often every element of every dataset is written and
// stores everything as JSON in the file when it is closed.
//
// Fault injection: VSHIM_H5_FAIL="<op>:<n>" makes the n-th (1-based) call of
// op in {open, create_group, create_dataset, get_dataset, select, write, resize, attr} fail.
#ifndef VSHIM_H5FILE_HPP
#define VSHIM_H5FILE_HPP
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <stdexcept>
#include <string>
#include <type_traits>
#include <unistd.h>
#include <sys/stat.h>
#include <vector>
#include <cmath>
#include <mutex>

typedef unsigned long long hsize_t;
typedef int64_t hid_t;
typedef int herr_t;
#define H5E_DEFAULT (hid_t)0
#define H5P_DEFAULT (hid_t)0
inline herr_t H5Eset_auto (hid_t, void*, void*) { return 0; }

extern "C" void vshim_point (const char* kind, const char* text) __attribute__((weak));

namespace HighFive
{
  class Exception : public std::exception
  {
  public:
    Exception (const std::string& m) : m_(m) {}
    virtual ~Exception () throw () {}
    const char* what () const throw () override { return m_.c_str(); }
    virtual void setErrorMsg (const std::string& m) { m_ = m; }
  protected:
    std::string m_;
  };
#define VSHIM_EXC(n) class n : public Exception { public: n (const std::string& m) : Exception(m) {} };
  VSHIM_EXC(ObjectException) VSHIM_EXC(DataTypeException) VSHIM_EXC(FileException)
  VSHIM_EXC(DataSpaceException) VSHIM_EXC(AttributeException) VSHIM_EXC(DataSetException)
  VSHIM_EXC(GroupException) VSHIM_EXC(PropertyException) VSHIM_EXC(ReferenceException)
#undef VSHIM_EXC
}

namespace vshim
{
  struct H5Dataset
  {
    std::vector<size_t> dims, maxdims;
    std::vector<double> data;
    std::vector<unsigned> writes; // per element
    bool chunked = false;
  };
  struct H5Event { std::string op, path; std::vector<size_t> offset, count; };
  struct H5Store
  {
    std::string filename;
    std::set<std::string> groups {"/"};
    std::map<std::string, std::string> attrs; // JSON-encoded values
    std::map<std::string, H5Dataset> datasets;
    std::vector<H5Event> events;
    int open_handles = 0;
    unsigned opened = 0, closed = 0;
  };
  inline std::map<std::string, std::shared_ptr<H5Store>>& h5_registry ()
  { static auto* r = new std::map<std::string, std::shared_ptr<H5Store>>; return *r; }
  inline std::recursive_mutex& h5_mutex () { static auto* m = new std::recursive_mutex; return *m; }
  // called after every successful dataset write
  inline std::function<void(const std::string&, const std::vector<size_t>&,
                            const std::vector<size_t>&, const double*)> h5_on_write;

  inline bool h5_fail (const char* op)
  {
    static std::map<std::string, long> n;
    static const char* spec = getenv("VSHIM_H5_FAIL");
    if (!spec) return false;
    std::lock_guard<std::recursive_mutex> g(h5_mutex());
    const char* c = strchr(spec, ':');
    if (!c || std::string(spec, c - spec) != op) return false;
    if (++n[op] != atol(c + 1)) return false;
    fprintf(stderr, "VSHIM: injected failure of %s\n", spec);
    return true;
  }
  inline std::string jstr (const std::string& s)
  {
    std::string r = "\"";
    for (unsigned char c : s)
      if (c == '"' || c == '\\') { r += '\\'; r += c; }
      else if (c < 0x20) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); r += b; }
      else r += c;
    return r + "\"";
  }
  inline void h5_dump (const H5Store& s)
  {
    std::string tmp = s.filename + ".tmp";
    FILE* f = fopen(tmp.c_str(), "w");
    if (!f) return;
    auto ivec = [f](const std::vector<size_t>& v)
      { fprintf(f, "["); for (size_t i = 0; i < v.size(); ++i) fprintf(f, "%s%lld", i ? "," : "", (long long)v[i]); fprintf(f, "]"); };
    fprintf(f, "{\"vshim\":1,\"opened\":%u,\"closed\":%u,\n\"groups\":[", s.opened, s.closed);
    bool first = true;
    for (auto& g : s.groups) { fprintf(f, "%s%s", first ? "" : ",", jstr(g).c_str()); first = false; }
    fprintf(f, "],\n\"attrs\":{"); first = true;
    for (auto& a : s.attrs) { fprintf(f, "%s%s:%s", first ? "" : ",\n", jstr(a.first).c_str(), a.second.c_str()); first = false; }
    fprintf(f, "},\n\"datasets\":{"); first = true;
    for (auto& d : s.datasets)
    {
      fprintf(f, "%s%s:{\"dims\":", first ? "" : ",\n", jstr(d.first).c_str()); first = false;
      ivec(d.second.dims);
      fprintf(f, ",\"data\":[");
      for (size_t i = 0; i < d.second.data.size(); ++i)
      {
        double v = d.second.data[i];
        if (i) fputc(',', f);
        if (std::isnan(v)) fputs("NaN", f);
        else if (std::isinf(v)) fputs(v > 0 ? "Infinity" : "-Infinity", f);
        else fprintf(f, "%.17g", v);
      }
      fprintf(f, "],\"writes\":[");
      for (size_t i = 0; i < d.second.writes.size(); ++i) fprintf(f, "%s%u", i ? "," : "", d.second.writes[i]);
      fprintf(f, "]}");
    }
    fprintf(f, "},\n\"events\":["); first = true;
    for (auto& e : s.events)
    {
      fprintf(f, "%s[%s,%s,", first ? "" : ",\n", jstr(e.op).c_str(), jstr(e.path).c_str()); first = false;
      ivec(e.offset); fprintf(f, ","); ivec(e.count); fprintf(f, "]");
    }
    fprintf(f, "]}\n");
    fclose(f);
    rename(tmp.c_str(), s.filename.c_str());
  }
  inline std::string norm (std::string p)
  {
    std::string r = "/";
    for (char c : p) if (c != '/' || r.back() != '/') r += c;
    if (r.size() > 1 && r.back() == '/') r.pop_back();
    return r;
  }
}

namespace HighFive
{
  class File;
  class DataSpace
  {
  public:
    static const size_t UNLIMITED = SIZE_MAX;
    enum DataspaceType { datascape_scalar, datascape_null };
    std::vector<size_t> d, m;
    DataSpace () {}
    explicit DataSpace (const std::vector<size_t>& dims) : d(dims), m(dims) {}
    DataSpace (const std::vector<size_t>& dims, const std::vector<size_t>& maxd) : d(dims), m(maxd)
    { if (d.size() != m.size()) throw DataSpaceException("dims and maxdims must be the same length."); }
    template<typename T> static DataSpace From (const T&) { return DataSpace(std::vector<size_t>{1}); }
    std::vector<size_t> getDimensions () const { return d; }
  };
  class Chunking
  {
  public:
    std::vector<hsize_t> c;
    explicit Chunking (const std::vector<hsize_t>& v) : c(v) {}
  };
  class Deflate { public: explicit Deflate (unsigned) {} };
  class Shuffle { public: Shuffle () {} };
  class DataSetCreateProps
  {
  public:
    bool chunked = false;
    std::vector<hsize_t> chunk;
    void add (const Chunking& c)
    {
      chunked = true; chunk = c.c;
      for (auto x : chunk) if (x == 0) throw PropertyException("Error setting property: zero chunk");
    }
    void add (const Deflate&) {}
    void add (const Shuffle&) {}
  };
  template<typename T> class AtomicType {};
  typedef AtomicType<double> DataTypeD;

  namespace vdetail
  {
    template<typename T> struct is_vec : std::false_type {};
    template<typename T> struct is_vec<std::vector<T>> : std::true_type {};
    template<typename T> void flatten (const T& v, std::vector<double>& out, std::vector<size_t>& dims, size_t lvl)
    {
      if constexpr (is_vec<T>::value)
      {
        if (dims.size() <= lvl) dims.push_back(v.size());
        else if (dims[lvl] != v.size()) throw DataSpaceException("ragged buffer");
        for (auto& x : v) flatten(x, out, dims, lvl + 1);
      }
      else out.push_back((double)v);
    }
  }

  class Selection
  {
    friend class DataSet;
    std::shared_ptr<vshim::H5Store> s; std::string path;
    std::vector<size_t> off, cnt;
  public:
    template<typename T> void write (const T& buf)
    {
      std::lock_guard<std::recursive_mutex> g(vshim::h5_mutex());
      if (vshim_point) vshim_point("write_begin", path.c_str()); if (vshim::h5_fail("write")) throw DataSetException("Error during HDF5 Write: (injected)");
      std::vector<double> flat; std::vector<size_t> bd;
      vdetail::flatten(buf, flat, bd, 0);
      auto it = s->datasets.find(path);
      if (it == s->datasets.end()) throw DataSetException("no such dataset");
      vshim::H5Dataset& d = it->second;
      size_t total = 1; for (auto c : cnt) total *= c;
      if (flat.size() != total) throw DataSpaceException("Impossible to write buffer of different size than the selection");
      if (total == 0) return;
      for (size_t i = 0; i < d.dims.size(); ++i)
        if (off[i] + cnt[i] > d.dims[i])
          throw DataSetException("Error during HDF5 Write: selection out of dataset extent");
      std::vector<size_t> ix(cnt.size(), 0);
      for (size_t k = 0; k < total; ++k)
      {
        size_t lin = 0;
        for (size_t i = 0; i < ix.size(); ++i) lin = lin * d.dims[i] + off[i] + ix[i];
        d.data[lin] = flat[k];
        ++d.writes[lin];
        for (size_t i = ix.size(); i-- > 0;) { if (++ix[i] < cnt[i]) break; ix[i] = 0; }
      }
      s->events.push_back({"write", path, off, cnt});
      if (vshim::h5_on_write) vshim::h5_on_write(path, off, cnt, flat.data()); if (vshim_point) vshim_point("write", path.c_str());
    }
  };

  class DataSet
  {
    std::shared_ptr<vshim::H5Store> s; std::string path;
  public:
    DataSet () {}
    DataSet (std::shared_ptr<vshim::H5Store> _s, const std::string& p) : s(_s), path(p) {}
    std::vector<size_t> getDimensions () const
    { std::lock_guard<std::recursive_mutex> g(vshim::h5_mutex()); return s->datasets.at(path).dims; }
    void resize (const std::vector<size_t>& nd)
    {
      std::lock_guard<std::recursive_mutex> g(vshim::h5_mutex());
      if (vshim_point) vshim_point("resize", path.c_str()); if (vshim::h5_fail("resize")) throw DataSetException("Could not resize dataset. (injected)");
      vshim::H5Dataset& d = s->datasets.at(path);
      if (nd.size() != d.dims.size()) throw DataSetException("Invalid dataspace dimensions");
      for (size_t i = 0; i < nd.size(); ++i)
        if (d.maxdims[i] != DataSpace::UNLIMITED && nd[i] > d.maxdims[i])
          throw DataSetException("Could not resize dataset.");
      std::vector<double> data; std::vector<unsigned> wr;
      size_t total = 1; for (auto x : nd) total *= x;
      data.assign(total, 0.); wr.assign(total, 0);
      size_t old = d.data.size();
      std::vector<size_t> ix(nd.size(), 0);
      for (size_t k = 0; k < old; ++k)
      {
        bool in = true; size_t lin = 0;
        for (size_t i = 0; i < nd.size(); ++i) { in = in && ix[i] < nd[i]; lin = lin * nd[i] + ix[i]; }
        if (in) { data[lin] = d.data[k]; wr[lin] = d.writes[k]; }
        for (size_t i = ix.size(); i-- > 0;) { if (++ix[i] < d.dims[i]) break; ix[i] = 0; }
      }
      s->events.push_back({"resize", path, d.dims, nd});
      d.dims = nd; d.data.swap(data); d.writes.swap(wr);
    }
    Selection select (const std::vector<size_t>& off, const std::vector<size_t>& cnt) const
    {
      std::lock_guard<std::recursive_mutex> g(vshim::h5_mutex());
      if (vshim_point) vshim_point("select", path.c_str()); if (vshim::h5_fail("select")) throw DataSpaceException("Unable to select hyperslap (injected)");
      auto& d = s->datasets.at(path);
      if (off.size() != d.dims.size() || cnt.size() != d.dims.size())
        throw DataSpaceException("Unable to select hyperslap: rank mismatch");
      Selection r; r.s = s; r.path = path; r.off = off; r.cnt = cnt; return r;
    }
  };

  class Attribute
  {
    std::shared_ptr<vshim::H5Store> s; std::string name;
  public:
    Attribute (std::shared_ptr<vshim::H5Store> _s, const std::string& n) : s(_s), name(n) {}
    template<typename T> void write (const T& v)
    {
      std::lock_guard<std::recursive_mutex> g(vshim::h5_mutex());
      if constexpr (std::is_same<T, bool>::value) s->attrs[name] = v ? "true" : "false";
      else if constexpr (std::is_arithmetic<T>::value) s->attrs[name] = std::to_string(v);
      else s->attrs[name] = vshim::jstr(v);
    }
  };

  class Group
  {
    std::shared_ptr<vshim::H5Store> s; std::string path;
  public:
    Group (std::shared_ptr<vshim::H5Store> _s, const std::string& p) : s(_s), path(p) {}
    template<typename T> Attribute createAttribute (const std::string& n, const DataSpace&)
    {
      std::lock_guard<std::recursive_mutex> g(vshim::h5_mutex());
      std::string full = path == "/" ? n : path + "@" + n;
      if (vshim_point) vshim_point("attr", n.c_str()); if (vshim::h5_fail("attr") || s->attrs.count(full)) throw AttributeException("Unable to create the attribute \"" + n + "\":");
      s->attrs[full] = "null";
      return Attribute(s, full);
    }
    bool hasAttribute (const std::string& n) const { return s->attrs.count(path == "/" ? n : path + "@" + n) > 0; }
  };

#ifdef ENABLE_MPI
  struct MPIOFileDriver { template <class C, class I> MPIOFileDriver (C, I) {} };
#endif

  class File
  {
    volatile uint64_t magic;
    std::shared_ptr<vshim::H5Store> s;
    void check (const char* op) const
    {
      if (magic != 0x48354f50454e4544ULL)
      {
        fprintf(stderr, "VSHIM: H5 file used after close (%s)\n", op);
        fflush(nullptr);
        _exit(97);
      }
    }
  public:
    enum : unsigned
    {
      ReadOnly = 0x00u, ReadWrite = 0x01u, Truncate = 0x02u, Excl = 0x04u,
      Debug = 0x08u, Create = 0x10u,
      Overwrite = Truncate, OpenOrCreate = ReadWrite | Create
    };
    explicit File (const std::string& filename, unsigned flags = ReadOnly)
    {
      std::lock_guard<std::recursive_mutex> g(vshim::h5_mutex());
      if (vshim::h5_fail("open")) throw FileException("Unable to open file " + filename + " (injected)");
      struct stat st; bool exists = stat(filename.c_str(), &st) == 0;
      bool must_create = flags & (Truncate | Excl);
      if (!must_create && exists)
      {
        auto i = vshim::h5_registry().find(filename);
        if (i == vshim::h5_registry().end()) throw FileException("Unable to open file " + filename + " (not a file of this process)");
        s = i->second;
      }
      else
      {
        if (!must_create && !(flags & Create)) throw FileException("Unable to open file " + filename);
        if (exists && !(flags & Truncate)) throw FileException("Unable to create file " + filename + " (File exists)");
        FILE* f = fopen(filename.c_str(), "w");
        if (!f) throw FileException("Unable to create file " + filename);
        fclose(f);
        s = std::make_shared<vshim::H5Store>();
        s->filename = filename;
        vshim::h5_registry()[filename] = s;
      }
      ++s->open_handles; ++s->opened;
      s->events.push_back({"open", filename, {}, {}});
      magic = 0x48354f50454e4544ULL; if (vshim_point) vshim_point("open", filename.c_str());
    }
#ifdef ENABLE_MPI
    File (const std::string& filename, unsigned flags, const MPIOFileDriver&) : File(filename, flags) {}
#endif
    File (const File&) = delete;
    File& operator= (const File&) = delete;
    ~File ()
    {
      check("close");
      std::lock_guard<std::recursive_mutex> g(vshim::h5_mutex());
      magic = 0x434c4f5345444844ULL;
      --s->open_handles; ++s->closed;
      s->events.push_back({"close", s->filename, {}, {}});
      vshim::h5_dump(*s);
      if (vshim_point) vshim_point("close", s->filename.c_str());
    }
    std::shared_ptr<vshim::H5Store> vshim_store () const { return s; }
    const std::string& getName () const { check("getName"); return s->filename; }
    void flush () { check("flush"); vshim::h5_dump(*s); }
    bool exist (const std::string& p) const
    {
      check("exist");
      std::lock_guard<std::recursive_mutex> g(vshim::h5_mutex());
      std::string n = vshim::norm(p);
      return s->groups.count(n) || s->datasets.count(n);
    }
    Group createGroup (const std::string& p, bool parents = true)
    {
      check("createGroup");
      std::lock_guard<std::recursive_mutex> g(vshim::h5_mutex());
      std::string n = vshim::norm(p);
      if (vshim_point) vshim_point("create_group", n.c_str()); if (vshim::h5_fail("create_group")) throw GroupException("Unable to create the group \"" + n + "\": (injected)");
      if (s->groups.count(n) || s->datasets.count(n)) throw GroupException("Unable to create the group \"" + n + "\": (Symbol table) Object already exists");
      for (size_t i = 1; i < n.size(); ++i)
        if (n[i] == '/')
        {
          std::string a = n.substr(0, i);
          if (s->datasets.count(a) || (!parents && !s->groups.count(a)))
            throw GroupException("Unable to create the group \"" + n + "\"");
          s->groups.insert(a);
        }
      s->groups.insert(n);
      return Group(s, n);
    }
    Group getGroup (const std::string& p) const
    {
      check("getGroup");
      std::lock_guard<std::recursive_mutex> g(vshim::h5_mutex());
      std::string n = vshim::norm(p);
      if (!s->groups.count(n)) throw GroupException("Unable to open the group \"" + n + "\":");
      return Group(s, n);
    }
    template<typename T> DataSet createDataSet (const std::string& p, const DataSpace& sp, const AtomicType<T>&,
                                                const DataSetCreateProps& props = DataSetCreateProps(), bool parents = true)
    {
      check("createDataSet");
      std::lock_guard<std::recursive_mutex> g(vshim::h5_mutex());
      std::string n = vshim::norm(p);
      if (vshim_point) vshim_point("create_dataset", n.c_str()); if (vshim::h5_fail("create_dataset")) throw DataSetException("Unable to create the dataset \"" + n + "\": (injected)");
      if (s->groups.count(n) || s->datasets.count(n)) throw DataSetException("Unable to create the dataset \"" + n + "\": (Symbol table) Object already exists");
      for (size_t i = 1; i < n.size(); ++i) if (n[i] == '/') s->groups.insert(n.substr(0, i));
      bool ext = false;
      for (auto m : sp.m) ext = ext || m == DataSpace::UNLIMITED;
      if (ext && !props.chunked) throw DataSetException("Unable to create the dataset: extendible datasets must be chunked");
      vshim::H5Dataset d; d.dims = sp.d; d.maxdims = sp.m; d.chunked = props.chunked;
      size_t total = 1; for (auto x : d.dims) total *= x;
      d.data.assign(total, 0.); d.writes.assign(total, 0);
      s->datasets[n] = d;
      s->events.push_back({"create", n, d.dims, {}});
      return DataSet(s, n);
    }
    DataSet getDataSet (const std::string& p) const
    {
      check("getDataSet");
      std::lock_guard<std::recursive_mutex> g(vshim::h5_mutex());
      std::string n = vshim::norm(p);
      if (vshim_point) vshim_point("get_dataset", n.c_str()); if (vshim::h5_fail("get_dataset") || !s->datasets.count(n)) throw DataSetException("Unable to open the dataset \"" + n + "\":");
      return DataSet(s, n);
    }
  };
}
#endif
