// Stand-in for MPI: one process; messages to any rank go into an in-process
// mailbox keyed by tag, so that a send followed by a receive round-trips.
#pragma once
#include <cstdint>
#include <cstring>
#include <deque>
#include <mutex>
#include <vector>
typedef int MPI_Comm; typedef int MPI_Datatype; typedef int MPI_Op;
struct MPI_Request { int d; };
struct MPI_Status { int MPI_SOURCE; int MPI_TAG; int MPI_ERROR; };
#define MPI_COMM_WORLD 0
#define MPI_INT 4
#define MPI_LONG 8
#define MPI_MIN 1
#define MPI_ANY_SOURCE (-1)
#define MPI_STATUS_IGNORE ((MPI_Status*)nullptr)
#define MPI_SUCCESS 0
namespace vpmpi {
struct Msg { int tag; int src; std::vector<char> data; };
inline std::mutex& mtx() { static std::mutex m; return m; }
inline std::deque<Msg>& box() { static std::deque<Msg> b; return b; }
inline void push(const void* p, int n, int t, int tag) {
    std::lock_guard<std::mutex> l(mtx());
    const char* c = static_cast<const char*>(p);
    box().push_back({ tag, 0, n > 0 ? std::vector<char>(c, c + size_t(n) * t) : std::vector<char>() });
}
}
inline int MPI_Init(int*, char***) { return 0; }
inline int MPI_Finalize() { return 0; }
inline int MPI_Comm_rank(MPI_Comm, int* r) { *r = 0; return 0; }
inline int MPI_Comm_size(MPI_Comm, int* s) { *s = 1; return 0; }
inline int MPI_Send(const void* p, int n, MPI_Datatype t, int, int tag, MPI_Comm) { vpmpi::push(p, n, t, tag); return 0; }
inline int MPI_Isend(const void* p, int n, MPI_Datatype t, int, int tag, MPI_Comm, MPI_Request*) { vpmpi::push(p, n, t, tag); return 0; }
inline int MPI_Iprobe(int, int tag, MPI_Comm, int* flag, MPI_Status* st) {
    std::lock_guard<std::mutex> l(vpmpi::mtx());
    *flag = 0;
    for (auto& m : vpmpi::box()) if (m.tag == tag) { *flag = 1; if (st) st->MPI_SOURCE = m.src; break; }
    return 0;
}
inline int MPI_Recv(void* p, int n, MPI_Datatype t, int, int tag, MPI_Comm, MPI_Status* st) {
    std::lock_guard<std::mutex> l(vpmpi::mtx());
    auto& b = vpmpi::box();
    for (auto it = b.begin(); it != b.end(); ++it) if (it->tag == tag) {
        size_t k = it->data.size(); size_t cap = n > 0 ? size_t(n) * t : 0;
        if (k > cap) k = cap;
        if (k) memcpy(p, it->data.data(), k);
        if (st) st->MPI_SOURCE = it->src;
        b.erase(it); return 0;
    }
    return 1;
}
inline int MPI_Ibarrier(MPI_Comm, MPI_Request*) { return 0; }
inline int MPI_Test(MPI_Request*, int* f, MPI_Status*) { *f = 1; return 0; }
inline int MPI_Allreduce(const void* s, void* r, int n, MPI_Datatype t, MPI_Op, MPI_Comm) { memcpy(r, s, size_t(n) * t); return 0; }
inline int MPI_Bcast(void*, int, MPI_Datatype, int, MPI_Comm) { return 0; }
