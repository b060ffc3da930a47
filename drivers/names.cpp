#include "mathic/NameFactory.h"
#include "mathic/error.cpp"
using namespace mathic;
struct Product { int x; };
struct Concrete : Product { Concrete() noexcept; };
typedef NameFactory<Product> F;
extern "C" {
  void d_names(const F& f, const std::string& p, std::vector<std::string>& names){f.namesWithPrefix(p, names);}
  void d_unique(const F& f, const std::string& p, std::string* out){new (out) std::string(uniqueNameWithPrefix(f, p));}
  void d_create_null(const F& f, const std::string& n, std::unique_ptr<Product>* out){new (out) std::unique_ptr<Product>(f.createNullOnUnknown(n));}
  void d_create(const F& f, const std::string& n, std::unique_ptr<Product>* out){new (out) std::unique_ptr<Product>(f.create(n));}
  void d_create_prefix(const F& f, const std::string& n, std::unique_ptr<Product>* out){new (out) std::unique_ptr<Product>(createWithPrefix(f, n));}
  void d_register(F& f, const std::string& n, F::FactoryFunction fn){f.registerProduct(n, fn);}
  void d_register_type(F& f, const std::string& n){nameFactoryRegister<Concrete>(f, n);}
  bool d_empty(const F& f){return f.empty();}
  void d_abstract(const F& f, std::string* out){new (out) std::string(f.abstractProductName());}
  void d_ctor(F* f){new (f) F("thing");}
  std::vector<F::Pair>* specp_pairs(F& f){return &f._pairs;}
}
