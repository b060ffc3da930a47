// Stand-in for the standard library used ONLY for IR extraction (never executed).
// Members that are defined here are the specification of that member; members that are
// only declared get an assumed contract in /verif/contracts.  Both are listed as trusted.
#ifndef VPSTD
#define VPSTD
typedef __SIZE_TYPE__ size_t; typedef __PTRDIFF_TYPE__ ptrdiff_t;
typedef signed char int8_t; typedef unsigned char uint8_t; typedef short int16_t; typedef unsigned short uint16_t;
typedef int int32_t; typedef unsigned int uint32_t; typedef long int64_t; typedef unsigned long uint64_t;
struct FILE; extern FILE* stderr; extern FILE* stdout; extern "C" { int fputs(const char*, FILE*) noexcept; int fputc(int, FILE*) noexcept; int fflush(FILE*) noexcept; int isspace(int) noexcept; }
#ifndef NULL
#define NULL __null
#endif
inline void* operator new(size_t, void* p) noexcept { return p; }
inline void* operator new[](size_t, void* p) noexcept { return p; }
inline void operator delete(void*, void*) noexcept {}
namespace std {
  using ::size_t; using ::ptrdiff_t;
  typedef decltype(nullptr) nullptr_t;
  template<class T> struct remove_reference{typedef T type;}; template<class T> struct remove_reference<T&>{typedef T type;}; template<class T> struct remove_reference<T&&>{typedef T type;};
  template<class T> constexpr typename remove_reference<T>::type&& move(T&& t) noexcept {return static_cast<typename remove_reference<T>::type&&>(t);}
  template<class T> constexpr T&& forward(typename remove_reference<T>::type& t) noexcept {return static_cast<T&&>(t);}
  template<class T> constexpr T&& forward(typename remove_reference<T>::type&& t) noexcept {return static_cast<T&&>(t);}
  template<class T> inline void swap(T& a, T& b) noexcept {T t=std::move(a);a=std::move(b);b=std::move(t);}
  template<class T> inline const T& min(const T& a, const T& b){return b<a?b:a;}
  template<class T> inline const T& max(const T& a, const T& b){return a<b?b:a;}
  template<class A,class B> struct pair { A first; B second; typedef A first_type; typedef B second_type; pair():first(),second(){} pair(const A& a,const B& b):first(a),second(b){}
    template<class U,class V> pair(const pair<U,V>& p):first(p.first),second(p.second){} };
  template<class A,class B> inline pair<A,B> make_pair(A a,B b){return pair<A,B>(a,b);}
  template<class A,class B> inline bool operator==(const pair<A,B>&x,const pair<A,B>&y){return x.first==y.first&&x.second==y.second;}
  struct random_access_iterator_tag{}; struct forward_iterator_tag{}; struct bidirectional_iterator_tag{}; struct input_iterator_tag{}; struct output_iterator_tag{};
  template<class C,class T,class D=ptrdiff_t,class P=T*,class R=T&> struct iterator{typedef C iterator_category;typedef T value_type;typedef D difference_type;typedef P pointer;typedef R reference;};
  template<class I> struct iterator_traits{typedef typename I::value_type value_type;typedef typename I::difference_type difference_type;typedef typename I::reference reference; typedef typename I::iterator_category iterator_category;};
  template<class T> struct iterator_traits<T*>{typedef T value_type;typedef ptrdiff_t difference_type;typedef T& reference; typedef random_access_iterator_tag iterator_category;};
  template<class T> struct iterator_traits<const T*>{typedef T value_type;typedef ptrdiff_t difference_type;typedef const T& reference; typedef random_access_iterator_tag iterator_category;};
  template<class I> inline typename iterator_traits<I>::difference_type distance(I a,I b){return b-a;}
  template<class T> struct numeric_limits;
  template<> struct numeric_limits<int>{static constexpr int max() noexcept{return __INT_MAX__;} static constexpr int min() noexcept{return -__INT_MAX__-1;} static const int digits=31;};
  template<> struct numeric_limits<unsigned int>{static constexpr unsigned max() noexcept{return ~0u;} static constexpr unsigned min() noexcept{return 0;} static const int digits=32;};
  template<> struct numeric_limits<unsigned short>{static constexpr unsigned short max() noexcept{return 65535;} static const int digits=16;};
  template<> struct numeric_limits<unsigned long>{static constexpr unsigned long max() noexcept{return ~0ul;} static const int digits=64;};
  template<> struct numeric_limits<long>{static constexpr long max() noexcept{return __LONG_MAX__;} static const int digits=63;};
  template<class T> struct less{bool operator()(const T& a,const T& b)const{return a<b;}};
  template<class T> struct allocator{};

  // strings are values: vp_id names the text; the functions vp_* on texts have assumed contracts (contracts/strs.py)
  extern "C" { long vp_lit(const char*) noexcept; long vp_ch(char) noexcept; long vp_rep(size_t,char) noexcept; long vp_cat(long,long) noexcept; long vp_sub(long,size_t,size_t) noexcept; long vp_range(const char*,const char*) noexcept;
    size_t vp_len(long) noexcept; int vp_cmp(long,long) noexcept; const char* vp_chars(long) noexcept; long vp_unum(unsigned long) noexcept; long vp_snum(long) noexcept; long vp_fnum(double) noexcept; bool vp_extract_u(long,unsigned*) noexcept; size_t vp_find(long,long,size_t) noexcept; long vp_repl(long,size_t,size_t,long) noexcept; long vp_rev(long) noexcept; }
  struct ostream;
  class string { public: long vp_id;
    typedef const char* iterator; typedef const char* const_iterator; typedef size_t size_type; typedef char value_type;
    static const size_t npos=~0ul;
    string() noexcept:vp_id(0){} string(const char* s) noexcept:vp_id(vp_lit(s)){} string(const string& s) noexcept:vp_id(s.vp_id){} string(string&& s) noexcept:vp_id(s.vp_id){s.vp_id=0;} string(const char* a,const char* b) noexcept:vp_id(vp_range(a,b)){} string(size_t n,char c) noexcept:vp_id(vp_rep(n,c)){} ~string() noexcept {}
    string& operator=(const string& s) noexcept {vp_id=s.vp_id;return *this;} string& operator=(string&& s) noexcept {vp_id=s.vp_id;return *this;} string& operator=(const char* s) noexcept {vp_id=vp_lit(s);return *this;}
    string& operator+=(char c) noexcept {vp_id=vp_cat(vp_id,vp_ch(c));return *this;} string& operator+=(const string& s) noexcept {vp_id=vp_cat(vp_id,s.vp_id);return *this;} string& operator+=(const char* s) noexcept {vp_id=vp_cat(vp_id,vp_lit(s));return *this;}
    string& append(const string& s) noexcept {vp_id=vp_cat(vp_id,s.vp_id);return *this;} string& append(const char* s) noexcept {vp_id=vp_cat(vp_id,vp_lit(s));return *this;} string& append(size_t n,char c) noexcept {vp_id=vp_cat(vp_id,vp_rep(n,c));return *this;}
    size_t size() const noexcept {return vp_len(vp_id);} size_t length() const noexcept {return vp_len(vp_id);} bool empty() const noexcept {return vp_len(vp_id)==0;}
    const char& operator[](size_t i) const noexcept {return vp_chars(vp_id)[i];} const char& at(size_t i) const noexcept; const char& front() const noexcept {return vp_chars(vp_id)[0];} const char& back() const noexcept {return vp_chars(vp_id)[vp_len(vp_id)-1];}
    const char* begin() const noexcept {return vp_chars(vp_id);} const char* end() const noexcept {return vp_chars(vp_id)+vp_len(vp_id);}
    const char* c_str() const noexcept {return vp_chars(vp_id);} const char* data() const noexcept {return vp_chars(vp_id);} void clear() noexcept {vp_id=0;} void push_back(char c) noexcept {vp_id=vp_cat(vp_id,vp_ch(c));} void reserve(size_t) noexcept {}
    void swap(string& s) noexcept {long t=vp_id;vp_id=s.vp_id;s.vp_id=t;}
    string& insert(size_t p,const string& s) noexcept {vp_id=vp_repl(vp_id,p,0,s.vp_id);return *this;} string& insert(size_t p,const char* s) noexcept {vp_id=vp_repl(vp_id,p,0,vp_lit(s));return *this;} string& insert(size_t p,size_t n,char c) noexcept {vp_id=vp_repl(vp_id,p,0,vp_rep(n,c));return *this;}
    int compare(size_t p,size_t n,const string& s) const noexcept {return vp_cmp(vp_sub(vp_id,p,n),s.vp_id);} int compare(const string& s) const noexcept {return vp_cmp(vp_id,s.vp_id);} string substr(size_t p=0,size_t n=~0ul) const noexcept {string r;r.vp_id=vp_sub(vp_id,p,n);return r;}
    size_t find(const string& s,size_t p=0) const noexcept {return vp_find(vp_id,s.vp_id,p);} size_t find(char c,size_t p=0) const noexcept {return vp_find(vp_id,vp_ch(c),p);}
  };
  inline string vp_str(long i) noexcept {string r;r.vp_id=i;return r;}
  inline bool operator==(const string& a,const string& b) noexcept {return a.vp_id==b.vp_id;} inline bool operator==(const string& a,const char* b) noexcept {return a.vp_id==vp_lit(b);} inline bool operator==(const char* b,const string& a) noexcept {return a.vp_id==vp_lit(b);} inline bool operator!=(const string& a,const string& b) noexcept {return a.vp_id!=b.vp_id;} inline bool operator!=(const string& a,const char* b) noexcept {return a.vp_id!=vp_lit(b);} 
  inline bool operator<(const string& a,const string& b) noexcept {return vp_cmp(a.vp_id,b.vp_id)<0;}
  inline string operator+(const string& a,const string& b) noexcept {return vp_str(vp_cat(a.vp_id,b.vp_id));} inline string operator+(const string& a,const char* b) noexcept {return vp_str(vp_cat(a.vp_id,vp_lit(b)));} inline string operator+(const char* a,const string& b) noexcept {return vp_str(vp_cat(vp_lit(a),b.vp_id));} inline string operator+(const string& a,char b) noexcept {return vp_str(vp_cat(a.vp_id,vp_ch(b)));} inline string operator+(char a,const string& b) noexcept {return vp_str(vp_cat(vp_ch(a),b.vp_id));}
  struct ios_base { typedef int fmtflags; typedef int openmode; static const int fixed=1; };
  // output streams: vp_id is the text written so far
  struct ostream { long vp_id; ostream() noexcept:vp_id(0){}
    ostream& operator<<(unsigned long v) noexcept {vp_id=vp_cat(vp_id,vp_unum(v));return *this;} ostream& operator<<(long v) noexcept {vp_id=vp_cat(vp_id,vp_snum(v));return *this;} ostream& operator<<(unsigned v) noexcept {vp_id=vp_cat(vp_id,vp_unum(v));return *this;} ostream& operator<<(int v) noexcept {vp_id=vp_cat(vp_id,vp_snum(v));return *this;} ostream& operator<<(bool) noexcept; ostream& operator<<(double v) noexcept {vp_id=vp_cat(vp_id,vp_fnum(v));return *this;} ostream& operator<<(unsigned long long v) noexcept {vp_id=vp_cat(vp_id,vp_unum(v));return *this;} ostream& operator<<(const void*) noexcept; ostream& put(char c) noexcept {vp_id=vp_cat(vp_id,vp_ch(c));return *this;}};
  inline ostream& operator<<(ostream& o,const char* s) noexcept {o.vp_id=vp_cat(o.vp_id,vp_lit(s));return o;} inline ostream& operator<<(ostream& o,char c) noexcept {o.vp_id=vp_cat(o.vp_id,vp_ch(c));return o;} inline ostream& operator<<(ostream& o,const string& s) noexcept {o.vp_id=vp_cat(o.vp_id,s.vp_id);return o;}
  struct exception{exception() noexcept {} virtual ~exception(); virtual const char* what() const noexcept;};
  struct runtime_error:exception{string vp_s; runtime_error(const string& s) noexcept:vp_s(s){} ~runtime_error();}; struct logic_error:exception{string vp_s; logic_error(const string& s) noexcept:vp_s(s){} ~logic_error();}; struct overflow_error:runtime_error{overflow_error(const string& s) noexcept:runtime_error(s){} ~overflow_error();};
  struct ostringstream:ostream{ostringstream() noexcept {} ~ostringstream() noexcept {} string str() const noexcept {return vp_str(vp_id);} void str(const string& s) noexcept {vp_id=s.vp_id;}}; typedef ostringstream stringstream;
  struct istringstream{long vp_id; bool vp_ok; istringstream(const string& s) noexcept:vp_id(s.vp_id),vp_ok(true){} ~istringstream() noexcept {} istringstream& operator>>(unsigned& v) noexcept {vp_ok=vp_extract_u(vp_id,&v);return *this;} explicit operator bool() const noexcept {return vp_ok;} bool operator!() const noexcept {return !vp_ok;} bool fail() const noexcept {return !vp_ok;}};

  // vector: contiguous storage vp_b[0..vp_n), capacity vp_c
  template<class T> class vector { public:
    T* vp_b; size_t vp_n; size_t vp_c;
    typedef T value_type; typedef T* iterator; typedef const T* const_iterator; typedef T& reference; typedef const T& const_reference; typedef size_t size_type; typedef ptrdiff_t difference_type;
    void vp_grow(size_t atleast) noexcept;            // assumed contract: capacity grows, contents kept, storage may move
    void vp_init_copy(const vector& v) noexcept;      // assumed contract: fresh storage with equal contents
    void vp_fill(size_t from, size_t to) noexcept;    // assumed contract: elements [from,to) are value-initialised
    void vp_fillv(size_t from, size_t to, const T& v) noexcept;
    vector() noexcept:vp_b(0),vp_n(0),vp_c(0){} explicit vector(size_t n) noexcept:vp_b(0),vp_n(0),vp_c(0){resize(n);} vector(size_t n,const T& v) noexcept:vp_b(0),vp_n(0),vp_c(0){vp_grow(n);vp_fillv(0,n,v);vp_n=n;}
    vector(const vector& v) noexcept:vp_b(0),vp_n(0),vp_c(0){vp_init_copy(v);} vector(vector&& v) noexcept:vp_b(v.vp_b),vp_n(v.vp_n),vp_c(v.vp_c){v.vp_b=0;v.vp_n=0;v.vp_c=0;}
    template<class I> vector(I a,I b);
    ~vector() noexcept {}
    vector& operator=(const vector& v) noexcept {vp_init_copy(v);return *this;} vector& operator=(vector&& v) noexcept {swap(v);return *this;}
    void swap(vector& v) noexcept {std::swap(vp_b,v.vp_b);std::swap(vp_n,v.vp_n);std::swap(vp_c,v.vp_c);}
    T* begin() noexcept {return vp_b;} T* end() noexcept {return vp_b+vp_n;} const T* begin() const noexcept {return vp_b;} const T* end() const noexcept {return vp_b+vp_n;}
    size_t size() const noexcept {return vp_n;} size_t capacity() const noexcept {return vp_c;} bool empty() const noexcept {return vp_n==0;}
    T& operator[](size_t i) noexcept {return vp_b[i];} const T& operator[](size_t i) const noexcept {return vp_b[i];}
    T& front() noexcept {return vp_b[0];} const T& front() const noexcept {return vp_b[0];} T& back() noexcept {return vp_b[vp_n-1];} const T& back() const noexcept {return vp_b[vp_n-1];}
    T* data() noexcept {return vp_b;} const T* data() const noexcept {return vp_b;}
    void reserve(size_t n) noexcept {if(n>vp_c)vp_grow(n);}
    void push_back(const T& v) noexcept {T t(v); if(vp_n==vp_c)vp_grow(vp_n+1); vp_b[vp_n]=t; vp_n=vp_n+1;}
    template<class U> void emplace_back(U&& v) noexcept {T t(std::forward<U>(v)); if(vp_n==vp_c)vp_grow(vp_n+1); vp_b[vp_n]=std::move(t); vp_n=vp_n+1;}
    void pop_back() noexcept {vp_n=vp_n-1;}
    void clear() noexcept {vp_n=0;}
    void resize(size_t n) noexcept {if(n>vp_n){if(n>vp_c)vp_grow(n);vp_fill(vp_n,n);}vp_n=n;}
    void resize(size_t n,const T& v) noexcept {if(n>vp_n){if(n>vp_c)vp_grow(n);vp_fillv(vp_n,n,v);}vp_n=n;}
    void vp_insert(size_t at,const T& v) noexcept; void vp_erase(size_t from,size_t to) noexcept;   // assumed contracts: elements after the place move by one (by to-from)
    iterator erase(iterator a,iterator b) noexcept {size_t k=a-vp_b;vp_erase(k,b-vp_b);return vp_b+k;} iterator erase(iterator a) noexcept {return erase(a,a+1);} iterator insert(iterator p,const T& v) noexcept {T t(v);size_t k=p-vp_b;vp_insert(k,t);return vp_b+k;} 
    template<class I> void insert(iterator p,I a,I b) noexcept; 
    template<class I> void assign(I a,I b) noexcept;
  };
  template<class T> inline void swap(vector<T>& a, vector<T>& b) noexcept {a.swap(b);}
  template<class T> class unique_ptr { public: T* p; unique_ptr() noexcept:p(0){} explicit unique_ptr(T* q) noexcept:p(q){} unique_ptr(unique_ptr&& o) noexcept:p(o.p){o.p=0;} ~unique_ptr() noexcept {} T* get() const noexcept{return p;} T* operator->() const noexcept{return p;} T& operator*() const noexcept{return *p;} T* release() noexcept{T*q=p;p=0;return q;} unique_ptr& operator=(unique_ptr&& o) noexcept {p=o.p;o.p=0;return *this;} };
  // ordered sets: the elements in order, vp_b[0..vp_n)
  template<class T,class C=less<T> > class multiset { public: T* vp_b; size_t vp_n; C vp_c;
    typedef const T* iterator; typedef const T* const_iterator; typedef T value_type; typedef size_t size_type;
    explicit multiset(const C& c) noexcept:vp_b(0),vp_n(0),vp_c(c){} ~multiset() noexcept {}
    iterator insert(const T& v) noexcept; iterator erase(iterator i) noexcept; size_t erase(const T& v) noexcept; void clear() noexcept {vp_n=0;}
    iterator begin() const noexcept {return vp_b;} iterator end() const noexcept {return vp_b+vp_n;} size_t size() const noexcept {return vp_n;} bool empty() const noexcept {return vp_n==0;}
  };
  template<class T,class C=less<T> > class set { public: T* vp_b; size_t vp_n; C vp_c;
    typedef const T* iterator; typedef const T* const_iterator; typedef T value_type; typedef size_t size_type;
    explicit set(const C& c) noexcept:vp_b(0),vp_n(0),vp_c(c){} ~set() noexcept {}
    pair<iterator,bool> insert(const T& v) noexcept; iterator erase(iterator i) noexcept; size_t erase(const T& v) noexcept; void clear() noexcept {vp_n=0;}
    iterator begin() const noexcept {return vp_b;} iterator end() const noexcept {return vp_b+vp_n;} size_t size() const noexcept {return vp_n;} bool empty() const noexcept {return vp_n==0;}
  };
  template<class I,class P> I partition(I a,I b,P p) noexcept;
  template<class I,class C> void sort(I a,I b,C c); template<class I> void sort(I a,I b);
  template<class I,class T> I find(I a,I b,const T& v);
  template<class I> struct reverse_iterator { I p; reverse_iterator() noexcept:p() {} explicit reverse_iterator(I x) noexcept:p(x){} I base() const noexcept {return p;} auto operator*() const noexcept -> decltype(*p) {I t=p; --t; return *t;} auto operator->() const noexcept -> decltype(&*p) {I t=p; --t; return &*t;} reverse_iterator& operator++() noexcept {--p;return *this;} reverse_iterator operator++(int) noexcept {reverse_iterator t(*this);--p;return t;} reverse_iterator& operator--() noexcept {++p;return *this;} bool operator==(const reverse_iterator& o) const noexcept {return p==o.p;} bool operator!=(const reverse_iterator& o) const noexcept {return !(p==o.p);} };
  template<class C> struct back_insert_iterator { C* c; explicit back_insert_iterator(C& x) noexcept:c(&x){} back_insert_iterator& operator=(const typename C::value_type& v) noexcept {c->push_back(v);return *this;} back_insert_iterator& operator*() noexcept {return *this;} back_insert_iterator& operator++() noexcept {return *this;} };
  template<class C> inline back_insert_iterator<C> back_inserter(C& c) noexcept {return back_insert_iterator<C>(c);}
  template<class I,class C> inline back_insert_iterator<C> copy(I a,I b,back_insert_iterator<C> o) noexcept {for(;a!=b;++a){*o=*a;++o;} return o;}
  // list: elements in reverse storage order vp_b[vp_n-1], .., vp_b[0]; a position is the address after its element, end() is vp_b
  template<class T> class list { public: T* vp_b; size_t vp_n;
    typedef T value_type; typedef size_t size_type; typedef T& reference; typedef const T& const_reference; typedef ptrdiff_t difference_type;
    struct iterator { T* p; typedef T value_type; typedef ptrdiff_t difference_type; typedef T* pointer; typedef T& reference; typedef bidirectional_iterator_tag iterator_category;
      iterator() noexcept:p(0){} explicit iterator(T* q) noexcept:p(q){} T& operator*() const noexcept {return p[-1];} T* operator->() const noexcept {return p-1;} iterator& operator++() noexcept {--p;return *this;} iterator operator++(int) noexcept {iterator t(p);--p;return t;} iterator& operator--() noexcept {++p;return *this;} iterator operator--(int) noexcept {iterator t(p);++p;return t;} bool operator==(const iterator& o) const noexcept {return p==o.p;} bool operator!=(const iterator& o) const noexcept {return p!=o.p;} };
    struct const_iterator { const T* p; typedef T value_type; typedef ptrdiff_t difference_type; typedef const T* pointer; typedef const T& reference; typedef bidirectional_iterator_tag iterator_category;
      const_iterator() noexcept:p(0){} explicit const_iterator(const T* q) noexcept:p(q){} const_iterator(const iterator& i) noexcept:p(i.p){} const T& operator*() const noexcept {return p[-1];} const T* operator->() const noexcept {return p-1;} const_iterator& operator++() noexcept {--p;return *this;} const_iterator operator++(int) noexcept {const_iterator t(p);--p;return t;} const_iterator& operator--() noexcept {++p;return *this;} const_iterator operator--(int) noexcept {const_iterator t(p);++p;return t;} bool operator==(const const_iterator& o) const noexcept {return p==o.p;} bool operator!=(const const_iterator& o) const noexcept {return p!=o.p;} };
    void vp_insert(T* at,const T& v) noexcept; void vp_erase(T* at) noexcept; void vp_move_first(T* at) noexcept; template<class C> void vp_sort(C c) noexcept;    // assumed contracts
    list() noexcept:vp_b(0),vp_n(0){} ~list() noexcept {}
    iterator begin() noexcept {return iterator(vp_b+vp_n);} iterator end() noexcept {return iterator(vp_b);} const_iterator begin() const noexcept {return const_iterator(vp_b+vp_n);} const_iterator end() const noexcept {return const_iterator(vp_b);}
    size_t size() const noexcept {return vp_n;} bool empty() const noexcept {return vp_n==0;} T& front() noexcept {return vp_b[vp_n-1];} T& back() noexcept {return vp_b[0];} const T& front() const noexcept {return vp_b[vp_n-1];} const T& back() const noexcept {return vp_b[0];}
    void push_back(const T& v) noexcept {T t(v);vp_insert(vp_b,t);} void push_front(const T& v) noexcept {T t(v);vp_insert(vp_b+vp_n,t);} iterator insert(iterator i,const T& v) noexcept {T t(v);vp_insert(i.p,t);return iterator(i.p+1);} iterator erase(iterator i) noexcept {vp_erase(i.p-1);return iterator(i.p-1);} void pop_front() noexcept {vp_n=vp_n-1;} void clear() noexcept {vp_n=0;}
    template<class C> void sort(C c) noexcept {vp_sort(c);}
    void splice(iterator to,list& from,iterator i) noexcept {vp_splice_ok(to.p==vp_b+vp_n&&&from==this);vp_move_first(i.p-1);}
    void vp_splice_ok(bool) noexcept;
  };
  template<class I,class O> O copy(I a,I b,O o); template<class I,class O> O copy_backward(I a,I b,O o);
  template<class I,class T,class C> I upper_bound(I a,I b,const T& v,C c); template<class I,class T,class C> I lower_bound(I a,I b,const T& v,C c);
  double floor(double);
}
#endif
