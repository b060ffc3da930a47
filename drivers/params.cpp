#include "mathic/IntegerParameter.cpp"
#include "mathic/BoolParameter.cpp"
#include "mathic/StringParameter.cpp"
#include "mathic/CliParameter.cpp"
#include "mathic/error.cpp"
using namespace mathic;
extern "C" {
  void d_int_process(IntegerParameter& p, const std::string& a){p.IntegerParameter::processArgument(a);}
  void d_int_text(IntegerParameter& p, std::string* out){new (out) std::string(p.IntegerParameter::valueAsString());}
  void d_int_round(IntegerParameter& p, IntegerParameter& q){q.IntegerParameter::processArgument(p.IntegerParameter::valueAsString());}
  unsigned d_int_value(IntegerParameter& p){return p.value();}
  unsigned d_int_conv(IntegerParameter& p){return p;}
  void d_int_set(IntegerParameter& p, unsigned v){p.setValue(v);}
  void d_int_assign(IntegerParameter& p, unsigned v){p = v;}
  void d_int_ctor(IntegerParameter* p, const std::string& n, const std::string& d, unsigned v){new (p) IntegerParameter(n, d, v);}
  unsigned* specp_int(IntegerParameter& p){return &p._value;}
  void d_bool_process(BoolParameter& p, const std::string& a){p.BoolParameter::processArgument(a);}
  void d_bool_text(BoolParameter& p, std::string* out){new (out) std::string(p.BoolParameter::valueAsString());}
  void d_bool_round(BoolParameter& p, BoolParameter& q){q.BoolParameter::processArgument(p.BoolParameter::valueAsString());}
  bool d_bool_value(BoolParameter& p){return p.value();}
  bool d_bool_conv(BoolParameter& p){return p;}
  void d_bool_set(BoolParameter& p, bool v){p.setValue(v);}
  void d_bool_assign(BoolParameter& p, bool v){p = v;}
  void d_bool_ctor(BoolParameter* p, const std::string& n, const std::string& d, bool v){new (p) BoolParameter(n, d, v);}
  bool* specp_bool(BoolParameter& p){return &p._value;}
  void d_str_process(StringParameter& p, const std::string& a){p.StringParameter::processArgument(a);}
  void d_str_text(StringParameter& p, std::string* out){new (out) std::string(p.StringParameter::valueAsString());}
  void d_str_round(StringParameter& p, StringParameter& q){q.StringParameter::processArgument(p.StringParameter::valueAsString());}
  const std::string* d_str_value(StringParameter& p){return &p.value();}
  void d_str_set(StringParameter& p, const std::string& v){p.setValue(v);}
  void d_str_assign(StringParameter& p, const std::string& v){p = v;}
  bool d_str_eq(StringParameter& p, const std::string& v){return p == v;}
  void d_str_ctor(StringParameter* p, const std::string& n, const std::string& d, const std::string& v){new (p) StringParameter(n, d, v);}
  std::string* specp_str(StringParameter& p){return &p._value;}
  std::string* specp_name(CliParameter& p){return &p._name;}
  std::string* specp_desc(CliParameter& p){return &p._description;}
}
