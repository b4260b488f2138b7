// Host stand-in for the part of CUDA the reference program uses: device memory is (checked) host memory, a kernel launch runs
// every thread of every block, in an order chosen from GS_ORDER.  Kernels that synchronise within a block run their block on
// real threads (CUDA_BLOCK_THREADS), all others one thread after the other.
#pragma once
#include <pthread.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>

#include <algorithm>
#include <map>
#include <thread>
#include <vector>
extern "C" {
int __sanitizer_get_ownership(const volatile void *p);
size_t __sanitizer_get_allocated_size(const volatile void *p);
void __asan_poison_memory_region(void const volatile *p, size_t n);
void __asan_unpoison_memory_region(void const volatile *p, size_t n);
}
#define __global__
#define __device__
#define __host__
#define __forceinline__ inline
#define __noinline__
#define __launch_bounds__(...)
#define __constant__ static
#define __managed__
#ifdef CUDA_BLOCK_THREADS
#define __shared__ static
#else
#define __shared__ static
#endif
struct uint3 {
  unsigned int x, y, z;
};
struct int2 {
  int x, y;
};
struct uint2 {
  unsigned int x, y;
};
struct double2 {
  double x, y;
};
inline double2 make_double2(double x, double y) { return {x, y}; }
inline uint2 make_uint2(unsigned x, unsigned y) { return {x, y}; }
inline int2 make_int2(int x, int y) { return {x, y}; }
struct dim3 {
  unsigned int x, y, z;
  dim3(unsigned int a = 1, unsigned int b = 1, unsigned int c = 1) : x(a), y(b), z(c) {}
};
static thread_local uint3 threadIdx, blockIdx;
static dim3 gridDim, blockDim;
typedef int cudaError_t;
typedef void *cudaStream_t;
enum { cudaSuccess = 0, cudaErrorInvalidValue = 1, cudaErrorMemoryAllocation = 2, cudaErrorInvalidConfiguration = 9 };
enum cudaMemcpyKind { cudaMemcpyHostToHost, cudaMemcpyHostToDevice, cudaMemcpyDeviceToHost, cudaMemcpyDeviceToDevice, cudaMemcpyDefault };
struct cudaDeviceProp {
  char name[256];
  int maxThreadsPerBlock, multiProcessorCount;
  size_t totalGlobalMem;
};
namespace cuda_shim {
inline void die(const char *what)
{
  fprintf(stderr, "cuda: %s\n", what);
  fflush(nullptr);
  _Exit(78);
}
inline std::map<char *, size_t> &blocks()
{
  static std::map<char *, size_t> b;
  return b;
}
inline bool device(const void *p, size_t n)
{
  auto it = blocks().upper_bound((char *)p);
  if (it == blocks().begin()) return false;
  --it;
  return (char *)p >= it->first && (char *)p + n <= it->first + it->second;
}
inline bool touchesDevice(const void *p)
{
  auto it = blocks().upper_bound((char *)p);
  if (it == blocks().begin()) return false;
  --it;
  return (char *)p < it->first + it->second;
}
// host code cannot reach device memory outside copies and launches
struct Open {
  Open()
  {
    for (auto &b : blocks()) __asan_unpoison_memory_region(b.first, b.second);
  }
  ~Open()
  {
    for (auto &b : blocks()) __asan_poison_memory_region(b.first, b.second);
  }
};
// and a kernel cannot reach a host array it is handed
struct Hide {
  std::vector<std::pair<const void *, size_t>> h;
  template <class T>
  void one(T *p)
  {
    if (!p || touchesDevice(p) || !__sanitizer_get_ownership(p)) return;
    h.push_back({p, __sanitizer_get_allocated_size(p)});
    __asan_poison_memory_region((void *)p, h.back().second);
  }
  template <class T>
  void one(const T &)
  {
  }
  template <class... A>
  explicit Hide(A &... a)
  {
    int x[] = {0, (one(a), 0)...};
    (void)x;
  }
  ~Hide()
  {
    for (auto &p : h) __asan_unpoison_memory_region((void *)p.first, p.second);
  }
};
inline cudaError_t &last()
{
  static cudaError_t e = 0;
  return e;
}
struct Cfg {
  dim3 g, b;
  Cfg(dim3 g_, dim3 b_, size_t = 0, cudaStream_t = nullptr) : g(g_), b(b_) {}
};
inline uint64_t &rng()
{
  static uint64_t s = getenv("GS_ORDER") ? strtoull(getenv("GS_ORDER"), nullptr, 10) : 0;
  return s;
}
inline uint64_t next()
{
  uint64_t z = rng() += 0x9E3779B97F4A7C15ull;
  z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
  z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
  return z ^ (z >> 31);
}
// order of n items: ascending (order 0), descending, or shuffled
inline std::vector<uint32_t> order(uint32_t n)
{
  std::vector<uint32_t> v(n);
  for (uint32_t i = 0; i < n; ++i) v[i] = i;
  static bool any = getenv("GS_ORDER") && strcmp(getenv("GS_ORDER"), "0");
  if (!any) return v;
  switch (next() % 3) {
    case 0: break;
    case 1: std::reverse(v.begin(), v.end()); break;
    default:
      for (uint32_t i = n; i > 1; --i) std::swap(v[i - 1], v[next() % i]);
  }
  return v;
}
inline pthread_barrier_t *&barrier()
{
  static pthread_barrier_t *b = nullptr;
  return b;
}
template <class F>
struct Launch {
  Cfg c;
  F f;
  template <class... A>
  void operator()(A &&... a)
  {
    uint64_t nb = (uint64_t)c.g.x * c.g.y * c.g.z, nt = (uint64_t)c.b.x * c.b.y * c.b.z;
    if (nb == 0 || nt == 0 || nt > 1024) {  // a real device refuses such a launch and runs nothing
      last() = cudaErrorInvalidConfiguration;
      return;
    }
    gridDim = c.g, blockDim = c.b;
    Open open;
    Hide hide(a...);
    auto run = [&](uint32_t b, uint32_t t) {
      blockIdx = {b % c.g.x, b / c.g.x % c.g.y, b / c.g.x / c.g.y};
      threadIdx = {t % c.b.x, t / c.b.x % c.b.y, t / c.b.x / c.b.y};
      f(a...);
    };
    for (uint32_t b : order((uint32_t)nb)) {
#ifdef CUDA_BLOCK_THREADS
      pthread_barrier_t bar;
      pthread_barrier_init(&bar, nullptr, (unsigned)nt);
      barrier() = &bar;
      std::vector<std::thread> ts;
      for (uint32_t t : order((uint32_t)nt)) ts.emplace_back([&, t] { run(b, t); });
      for (auto &t : ts) t.join();
      pthread_barrier_destroy(&bar);
#else
      for (uint32_t t : order((uint32_t)nt)) run(b, t);
#endif
    }
  }
};
template <class F>
Launch<F> launch(Cfg c, F f)
{
  return Launch<F>{c, f};
}
}  // namespace cuda_shim
inline void __syncthreads()
{
  if (cuda_shim::barrier()) pthread_barrier_wait(cuda_shim::barrier());
}
template <class T>
cudaError_t cudaMalloc(T **p, size_t n)
{
  *p = (T *)malloc(n ? n : 1);
  memset((void *)*p, 0xFF, n);  // device memory starts undefined: not-a-number, huge indices
  cuda_shim::blocks()[(char *)*p] = n;
  __asan_poison_memory_region((char *)*p, n);
  return cudaSuccess;
}
template <class T>
cudaError_t cudaMallocManaged(T **p, size_t n, unsigned = 0)
{
  *p = (T *)malloc(n ? n : 1);
  memset((void *)*p, 0xFF, n);
  return cudaSuccess;
}
template <class T>
cudaError_t cudaMallocHost(T **p, size_t n)
{
  *p = (T *)malloc(n ? n : 1);
  return cudaSuccess;
}
inline cudaError_t cudaFreeHost(void *p)
{
  free(p);
  return cudaSuccess;
}
inline cudaError_t cudaFree(void *p)
{
  if (!p) return cudaSuccess;
  auto it = cuda_shim::blocks().find((char *)p);
  if (it == cuda_shim::blocks().end()) {
    if (cuda_shim::touchesDevice(p)) cuda_shim::die("free of an address inside a device allocation");
  } else {
    __asan_unpoison_memory_region(it->first, it->second);
    cuda_shim::blocks().erase(it);
  }
  free(p);
  return cudaSuccess;
}
inline cudaError_t cudaMemcpy(void *d, const void *s, size_t n, cudaMemcpyKind k)
{
  if (k == cudaMemcpyHostToDevice || k == cudaMemcpyDeviceToDevice)
    if (!cuda_shim::device(d, n)) cuda_shim::die("copy to the device writes outside one device allocation");
  if (k == cudaMemcpyDeviceToHost || k == cudaMemcpyDeviceToDevice)
    if (!cuda_shim::device(s, n)) cuda_shim::die("copy from the device reads outside one device allocation");
  if (k == cudaMemcpyDeviceToHost && cuda_shim::touchesDevice(d)) cuda_shim::die("copy to the host has a device destination");
  if (k == cudaMemcpyHostToDevice && cuda_shim::touchesDevice(s)) cuda_shim::die("copy to the device has a device source");
  cuda_shim::Open open;
  memcpy(d, s, n);
  return cudaSuccess;
}
inline cudaError_t cudaMemcpyAsync(void *d, const void *s, size_t n, cudaMemcpyKind k, cudaStream_t = nullptr) { return cudaMemcpy(d, s, n, k); }
inline cudaError_t cudaMemset(void *d, int v, size_t n)
{
  if (!cuda_shim::device(d, n)) cuda_shim::die("memset outside one device allocation");
  cuda_shim::Open open;
  memset(d, v, n);
  return cudaSuccess;
}
inline cudaError_t cudaDeviceSynchronize() { return cudaSuccess; }
inline cudaError_t cudaThreadSynchronize() { return cudaSuccess; }
inline cudaError_t cudaDeviceReset() { return cudaSuccess; }
inline cudaError_t cudaSetDevice(int) { return cudaSuccess; }
inline cudaError_t cudaPeekAtLastError() { return cuda_shim::last(); }
inline cudaError_t cudaGetLastError()
{
  cudaError_t e = cuda_shim::last();
  cuda_shim::last() = 0;
  return e;
}
inline const char *cudaGetErrorString(cudaError_t e) { return e ? "error" : "no error"; }
inline const char *cudaGetErrorName(cudaError_t e) { return e ? "cudaError" : "cudaSuccess"; }
inline cudaError_t cudaGetDeviceCount(int *n) { return *n = 1, cudaSuccess; }
inline cudaError_t cudaGetDeviceProperties(cudaDeviceProp *p, int)
{
  memset(p, 0, sizeof *p);
  p->maxThreadsPerBlock = 1024, p->multiProcessorCount = 8, p->totalGlobalMem = (size_t)8 << 30;
  return cudaSuccess;
}
typedef int *cudaEvent_t;
inline cudaError_t cudaEventCreate(cudaEvent_t *e) { return *e = nullptr, cudaSuccess; }
inline cudaError_t cudaEventDestroy(cudaEvent_t) { return cudaSuccess; }
inline cudaError_t cudaEventRecord(cudaEvent_t, cudaStream_t = nullptr) { return cudaSuccess; }
inline cudaError_t cudaEventSynchronize(cudaEvent_t) { return cudaSuccess; }
inline cudaError_t cudaEventElapsedTime(float *t, cudaEvent_t, cudaEvent_t) { return *t = 0.5f, cudaSuccess; }
inline cudaError_t cudaStreamCreate(cudaStream_t *s) { return *s = nullptr, cudaSuccess; }
inline cudaError_t cudaStreamSynchronize(cudaStream_t) { return cudaSuccess; }
inline cudaError_t cudaStreamDestroy(cudaStream_t) { return cudaSuccess; }
template <class T>
T __ldg(const T *p)
{
  return *p;
}
template <class T, class U>
T atomicAdd(T *p, U v)
{
  T o = *p;
  *p = (T)(o + v);
  return o;
}
