// A model of the file layer under Cap'n Proto: files are lists of messages kept in memory, and the words of a message
// are copied as they are.  Building and reading messages is left to the real library and the generated accessors.
#pragma once
#include <cstdint>
#include <cstring>
#include <map>
#include <string>
#include <vector>
#include <fcntl.h>
#include <sys/stat.h>
#include <capnp/message.h>
#include <kj/exception.h>
#include <kj/string.h>
namespace fakefs {
struct Message { std::vector<std::vector<uint64_t>> segments; };
struct File { std::vector<Message> messages; bool partial = false; }; // partial: the last message was cut off
inline std::map<std::string, File> files; inline bool full = false; // full: nothing can be opened for writing
struct Open { std::string name; size_t next = 0; bool write = false; };
inline std::map<int, Open> fds; inline int next_fd = 10;
static inline int open_(const char *p, int flags) {
    bool w = (flags & O_ACCMODE) != O_RDONLY; if (w && full) return -1; if (!files.count(p)) { if (!(flags & O_CREAT)) return -1; files[p]; } if (w && (flags & O_TRUNC)) files[p] = File();
    fds[next_fd] = Open{p, 0, w}; return next_fd++;
}
} // namespace fakefs
namespace capnp {
static inline void writeMessageToFd(int fd, MessageBuilder &b) {
    auto &o = fakefs::fds.at(fd); if (!o.write) throw kj::Exception(kj::Exception::Type::FAILED, "model", 1, kj::heapString("not open for writing"));
    fakefs::Message m; auto s = b.getSegmentsForOutput(); for (size_t k = 0; k < s.size(); ++k) { auto p = (const uint64_t *)s[k].begin(); m.segments.emplace_back(p, p + s[k].size()); } fakefs::files[o.name].messages.push_back(m);
}
class StreamFdMessageReader {
    fakefs::Message m; std::vector<kj::ArrayPtr<const word>> segs; kj::Own<SegmentArrayMessageReader> r;
public:
    explicit StreamFdMessageReader(int fd, ReaderOptions o = ReaderOptions()) {
        auto &f = fakefs::fds.at(fd); auto &all = fakefs::files[f.name]; if (f.next + (all.partial ? 1 : 0) >= all.messages.size()) throw kj::Exception(kj::Exception::Type::DISCONNECTED, "model", 1, kj::heapString("premature EOF"));
        m = all.messages[f.next++]; for (auto &s : m.segments) segs.push_back(kj::arrayPtr((const word *)s.data(), s.size())); r = kj::heap<SegmentArrayMessageReader>(kj::arrayPtr((const kj::ArrayPtr<const word> *)segs.data(), segs.size()), o);
    }
    template <class T> typename T::Reader getRoot() { return r->getRoot<T>(); }
};
} // namespace capnp
