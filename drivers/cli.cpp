#include "mathic/CliParser.cpp"
#include "mathic/Action.cpp"
#include "mathic/error.cpp"
#include "mathic/HelpAction.h"
using namespace mathic;
extern "C" {
  void d_parse(CliParser& p, const std::vector<std::string>& cl, std::unique_ptr<Action>* out){new (out) std::unique_ptr<Action>(p.parse(cl));}
  void d_parse_argv(CliParser& p, int argc, char** argv, std::unique_ptr<Action>* out){new (out) std::unique_ptr<Action>(p.parse(argc, argv));}
  void d_create(CliParser& p, const std::string& n, std::unique_ptr<Action>* out){new (out) std::unique_ptr<Action>(p.createActionWithPrefix(n));}
  void d_action_names(const CliParser& p, std::vector<std::string>& names){p.pushBackRegisteredActionNames(names);}
  void d_direct(Action& a, std::vector<std::string>& tokens, CliParser& p){a.Action::directOptions(tokens, p);}
  void d_make(std::vector<CliParameter*>& v, ParamNames* out){new (out) ParamNames(makeParamNames(v));}
  // which virtual function is which slot
  void slot_directOptions(Action& a, const std::vector<std::string>& t, CliParser& p){a.directOptions(t, p);}
  void slot_pushBackParameters(Action& a, std::vector<CliParameter*>& v){a.pushBackParameters(v);}
  void slot_processArgument(CliParameter& a, const std::string& s){a.processArgument(s);}
  std::string* specp_name(CliParameter& p){return &p._name;}
  NameFactory<Action>* specp_actions(CliParser& p){return &p._actions;}
  std::vector<ParamNames::Pair>* specp_pairs(ParamNames& f){return &f._pairs;}
}
