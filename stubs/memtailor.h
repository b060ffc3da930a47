#ifndef VP_MEMTAILOR
#define VP_MEMTAILOR
#include "vpstd.h"
namespace memt {
  // storage that is released as a whole, or back to a mark
  class Arena { public: static Arena& getArena() noexcept; void* vp_mark; void* vp_alloc(size_t bytes) noexcept; void vp_release() noexcept; Arena() noexcept:vp_mark(0){} ~Arena() noexcept {} size_t getMemoryUse() const noexcept;
    void* alloc(size_t n) noexcept {return vp_alloc(n);} void vp_freeAll() noexcept; void freeAllAllocs() noexcept {vp_freeAll();} void freeTop(void*) noexcept; bool isEmpty() const noexcept;
    template<class T> T* allocObjectNoCon() noexcept {return static_cast<T*>(vp_alloc(sizeof(T)));}
    template<class T> std::pair<T*,T*> allocArrayNoCon(size_t n) noexcept {T* p=static_cast<T*>(vp_alloc(n*sizeof(T))); return std::pair<T*,T*>(p,p+n);}
    class Guard { Arena& a; bool vp_keep; public: Guard(Arena& x) noexcept:a(x),vp_keep(false){} ~Guard() noexcept {if(!vp_keep) a.vp_release();} void release() noexcept {vp_keep=true;} }; };
  // blocks of one size, all released together
  class BufferPool { public: size_t vp_size; BufferPool(size_t n) noexcept:vp_size(n){} ~BufferPool() noexcept {} void* alloc() noexcept; void free(void*) noexcept; void freeAllBuffers() noexcept; size_t getMemoryUse() const noexcept; };
  // fixed capacity given at construction; push_back beyond it is undefined (an obligation in the contracts)
  template<class T,bool F> class ArenaVector { public:
    T* vp_b; size_t vp_n; size_t vp_c;
    typedef T value_type; typedef T* iterator; typedef const T* const_iterator; typedef T& reference; typedef const T& const_reference;
    void vp_alloc(size_t cap) noexcept; void vp_need(bool) noexcept;
    ArenaVector(Arena&,size_t cap) noexcept:vp_b(0),vp_n(0),vp_c(0){vp_alloc(cap);} ~ArenaVector() noexcept {}
    bool empty() const noexcept {return vp_n==0;} size_t size() const noexcept {return vp_n;}
    T* begin() noexcept {return vp_b;} T* end() noexcept {return vp_b+vp_n;} const T* begin() const noexcept {return vp_b;} const T* end() const noexcept {return vp_b+vp_n;}
    void push_back(const T& v) noexcept {vp_need(vp_n<vp_c); vp_b[vp_n]=v; vp_n=vp_n+1;} void pop_back() noexcept {vp_n=vp_n-1;} void clear() noexcept {vp_n=0;}
  };
}
#endif
