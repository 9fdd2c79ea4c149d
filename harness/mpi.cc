// Model of the MPI calls polytope makes, for 1..N ranks run as cooperating threads.
// Blocking calls hand control to another rank; a round of hand-overs without progress is a deadlock.
// Isend either copies at the call (buffered) or leaves the buffer with the caller until the matching
// receive (rendezvous): mpim_eager selects, so harnesses can make it symbolic.
#include "vp.h"
#include "mpim.h"
#include <vector>
#include <cstring>
#include <cstdlib>
extern "C" {
char ompi_mpi_comm_world[8], ompi_mpi_double[8], ompi_mpi_char[8], ompi_mpi_unsigned[8], ompi_mpi_float[8], ompi_mpi_int[8], ompi_mpi_op_min[8], ompi_mpi_op_max[8], ompi_mpi_op_sum[8];
int mpim_size = 1, mpim_eager = 1;
long mpim_calls = 0;
}
struct Msg { int src, dst, tag; long bytes; const char* live; std::vector<char> data; bool taken; };
struct Coll { int kind, root; long bytes; const void* op; int arrived; std::vector<std::vector<char> > in; std::vector<char> have; };
static std::vector<Msg*> msgs; static std::vector<Coll*> colls; static std::vector<int> seq; static long progress = 0;
static int me() { int s = vp_self(); return s > 0 ? s - 1 : 0; }
static void idle(long& last, int& spins) {
  if (progress != last) { last = progress; spins = 0; }
  if (mpim_size == 1 || ++spins > 3 * mpim_size + 3) vp_assert(0, "no deadlock between ranks");
  vp_yield();
}
static long tsize(const void* t) { return t == ompi_mpi_double ? 8 : t == ompi_mpi_char ? 1 : 4; }
static Coll* enter(int kind, int root, long bytes, const void* op, const void* in) {
  if ((int)seq.size() < mpim_size) seq.resize(mpim_size, 0);
  int k = seq[me()]++;
  while ((int)colls.size() <= k) colls.push_back(0);
  if (!colls[k]) { Coll* c = new Coll(); c->kind = kind; c->root = root; c->bytes = bytes; c->op = op; c->arrived = 0; c->in.resize(mpim_size); c->have.resize(mpim_size, 0); colls[k] = c; }
  Coll* c = colls[k];
  vp_assert(c->kind == kind && c->root == root && c->op == op && c->bytes == bytes, "collective calls match across ranks");
  if (in) c->in[me()].assign((const char*)in, (const char*)in + bytes);
  c->have[me()] = 1; ++c->arrived; ++progress; return c;
}
extern "C" {
void mpim_init(int n, int eager) { mpim_size = n; mpim_eager = eager; seq.assign(n, 0); }
int MPI_Comm_rank(void*, int* r) { *r = me(); return 0; }
int MPI_Comm_size(void*, int* n) { *n = mpim_size; return 0; }
int MPI_Barrier(void*) { Coll* c = enter(1, 0, 0, 0, 0); long l = progress; int s = 0; while (c->arrived < mpim_size) idle(l, s); return 0; }
int MPI_Bcast(void* buf, int count, void* t, int root, void*) {
  ++mpim_calls; long b = count * tsize(t); Coll* c = enter(2, root, b, 0, me() == root ? buf : 0);
  long l = progress; int s = 0; while (!c->have[root]) idle(l, s);
  if (me() != root && b) memcpy(buf, &c->in[root][0], b);
  return 0;
}
int MPI_Allreduce(const void* in, void* out, int count, void* t, void* op, void*) {
  ++mpim_calls; long b = count * tsize(t); Coll* c = enter(3, 0, b, op, in);
  long l = progress; int s = 0; while (c->arrived < mpim_size) idle(l, s);
  for (int i = 0; i < count; ++i) for (int r = 0; r < mpim_size; ++r) {
    if (t == ompi_mpi_double) { double v; memcpy(&v, &c->in[r][8 * i], 8); double& o = ((double*)out)[i]; if (r == 0) o = v; else if (op == ompi_mpi_op_min) o = v < o ? v : o; else if (op == ompi_mpi_op_max) o = v > o ? v : o; else o += v; }
    else { unsigned v; memcpy(&v, &c->in[r][4 * i], 4); unsigned& o = ((unsigned*)out)[i]; if (r == 0) o = v; else if (op == ompi_mpi_op_min) o = v < o ? v : o; else if (op == ompi_mpi_op_max) o = v > o ? v : o; else o += v; }
  }
  return 0;
}
int MPI_Isend(const void* buf, int count, void* t, int dst, int tag, void*, void** req) {
  ++mpim_calls; long b = count * tsize(t); vp_assert(dst >= 0 && dst < mpim_size && dst != me(), "message addressed to an existing other rank");
  Msg* m = new Msg(); m->src = me(); m->dst = dst; m->tag = tag; m->bytes = b; m->taken = false; m->live = 0;
  if (mpim_eager) m->data.assign((const char*)buf, (const char*)buf + b); else m->live = (const char*)buf;
  msgs.push_back(m); *req = m; ++progress; return 0;
}
int MPI_Ssend(const void* buf, int count, void* t, int dst, int tag, void*) {
  ++mpim_calls; long b = count * tsize(t); vp_assert(dst >= 0 && dst < mpim_size && dst != me(), "message addressed to an existing other rank");
  Msg* m = new Msg(); m->src = me(); m->dst = dst; m->tag = tag; m->bytes = b; m->taken = false; m->live = (const char*)buf; msgs.push_back(m); ++progress;
  long l = progress; int s = 0; while (!m->taken) idle(l, s);
  return 0;
}
int MPI_Recv(void* buf, int count, void* t, int src, int tag, void*, void*) {
  ++mpim_calls; long b = count * tsize(t); long l = progress; int s = 0;
  for (;;) {
    Msg* m = 0; for (size_t i = 0; i < msgs.size(); ++i) if (!msgs[i]->taken && msgs[i]->src == src && msgs[i]->dst == me() && msgs[i]->tag == tag) { m = msgs[i]; break; }
    if (m) { vp_assert(m->bytes <= b, "message not truncated"); vp_assert(m->bytes == b, "message has the expected size"); if (m->bytes) memcpy(buf, m->live ? m->live : &m->data[0], m->bytes); m->taken = true; ++progress; return 0; }
    idle(l, s);
  }
}
int MPI_Waitall(int n, void** reqs, void*) {
  for (int i = 0; i < n; ++i) { Msg* m = (Msg*)reqs[i]; long l = progress; int s = 0; while (!mpim_eager && !m->taken) idle(l, s); }
  return 0;
}
int MPI_Abort(void*, int) { vp_assert(0, "MPI_Abort not called"); abort(); }
int MPI_Init(int*, char***) { return 0; }
int MPI_Finalize() { return 0; }
void mpim_finish() {
  for (size_t i = 0; i < msgs.size(); ++i) vp_assert(msgs[i]->taken, "every message sent is received");
  for (size_t r = 1; r < seq.size(); ++r) vp_assert(seq[r] == seq[0], "every rank makes the same collective calls");
}
}
