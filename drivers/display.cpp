#include "mathic/ColumnPrinter.cpp"
using namespace mathic;
typedef unsigned long long ull;
#define OUT(x) new (out) std::string(x)
extern "C" {
  void d_commafy(ull l, std::string* out){OUT(ColumnPrinter::commafy(l));}
  void d_percentInteger(ull a, ull b, std::string* out){OUT(ColumnPrinter::percentInteger(a, b));}
  void d_percentIntegerFixed(ull a, ull b, std::string* out){OUT(ColumnPrinter::percentIntegerFixed(a, b));}
  void d_percentDouble2(double a, double b, std::string* out){OUT(ColumnPrinter::percentDouble(a, b));}
  void d_percentDouble(double a, std::string* out){OUT(ColumnPrinter::percentDouble(a));}
  void d_ratioInteger(ull a, ull b, std::string* out){OUT(ColumnPrinter::ratioInteger(a, b));}
  void d_ratioDouble(double a, double b, std::string* out){OUT(ColumnPrinter::ratioDouble(a, b));}
  void d_oneDecimal(double a, std::string* out){OUT(ColumnPrinter::oneDecimal(a));}
  void d_withSIPrefix(ull a, std::string* out){OUT(ColumnPrinter::withSIPrefix(a));}
  void d_bytesInUnit(ull a, std::string* out){OUT(ColumnPrinter::bytesInUnit(a));}
}
