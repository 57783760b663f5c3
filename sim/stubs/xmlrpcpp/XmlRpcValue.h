// Stand-in for xmlrpcpp's value type, with the semantics of the original: conversions throw on another type, an invalid
// value becomes what it is used as, the constant element access throws out of range.
#pragma once
#include <ctime>
#include <map>
#include <memory>
#include <ostream>
#include <string>
#include <vector>
#include <xmlrpcpp/XmlRpcException.h>
namespace XmlRpc
{
class XmlRpcValue
{
public:
  enum Type
  {
    TypeInvalid,
    TypeBoolean,
    TypeInt,
    TypeDouble,
    TypeString,
    TypeDateTime,
    TypeBase64,
    TypeArray,
    TypeStruct
  };
  typedef std::vector<char> BinaryData;
  typedef std::vector<XmlRpcValue> ValueArray;
  typedef std::map<std::string, XmlRpcValue> ValueStruct;
  typedef ValueStruct::iterator iterator;
  typedef ValueStruct::const_iterator const_iterator;

  XmlRpcValue() {}
  XmlRpcValue(bool v) : _type(TypeBoolean), _b(v) {}
  XmlRpcValue(int v) : _type(TypeInt), _i(v) {}
  XmlRpcValue(double v) : _type(TypeDouble), _d(v) {}
  XmlRpcValue(const std::string& v) : _type(TypeString), _s(v) {}
  XmlRpcValue(const char* v) : _type(TypeString), _s(v) {}
  static XmlRpcValue dateTime()
  {
    XmlRpcValue v;
    v._type = TypeDateTime;
    return v;
  }
  static XmlRpcValue base64()
  {
    XmlRpcValue v;
    v._type = TypeBase64;
    return v;
  }
  static XmlRpcValue array()
  {
    XmlRpcValue v;
    v._type = TypeArray;
    return v;
  }
  static XmlRpcValue structure()
  {
    XmlRpcValue v;
    v._type = TypeStruct;
    return v;
  }
  void clear() { *this = XmlRpcValue(); }

  operator bool&() { return as(TypeBoolean), _b; }
  operator int&() { return as(TypeInt), _i; }
  operator double&() { return as(TypeDouble), _d; }
  operator std::string&() { return as(TypeString), _s; }
  operator BinaryData&() { return as(TypeBase64), _x; }
  operator struct tm&() { return as(TypeDateTime), _t; }
  operator const bool&() const { return is(TypeBoolean), _b; }
  operator const int&() const { return is(TypeInt), _i; }
  operator const double&() const { return is(TypeDouble), _d; }
  operator const std::string&() const { return is(TypeString), _s; }

  XmlRpcValue& operator[](int i)
  {
    as(TypeArray);
    if ((int)_a.size() < i + 1)
      _a.resize(i + 1);
    return _a.at(i);
  }
  const XmlRpcValue& operator[](int i) const
  {
    is(TypeArray);
    if ((int)_a.size() < i + 1)
      throw XmlRpcException("range error: array index too large");
    return _a.at(i);
  }
  XmlRpcValue& operator[](const std::string& k) { return as(TypeStruct), _m[k]; }
  XmlRpcValue& operator[](const char* k) { return as(TypeStruct), _m[k]; }
  const XmlRpcValue& operator[](const std::string& k) const { return member(k); }
  const XmlRpcValue& operator[](const char* k) const { return member(k); }
  iterator begin() { return as(TypeStruct), _m.begin(); }
  iterator end() { return as(TypeStruct), _m.end(); }
  const_iterator begin() const { return is(TypeStruct), _m.begin(); }
  const_iterator end() const { return is(TypeStruct), _m.end(); }

  bool valid() const { return _type != TypeInvalid; }
  const Type& getType() const { return _type; }
  int size() const
  {
    switch (_type)
    {
      case TypeString:
        return (int)_s.size();
      case TypeBase64:
        return (int)_x.size();
      case TypeArray:
        return (int)_a.size();
      case TypeStruct:
        return (int)_m.size();
      default:
        throw XmlRpcException("type error");
    }
  }
  void setSize(int n) { as(TypeArray), _a.resize(n); }
  bool hasMember(const std::string& k) const { return _type == TypeStruct && _m.find(k) != _m.end(); }
  std::ostream& write(std::ostream& o) const { return o << "(" << (int)_type << ")"; }

private:
  void as(Type t)
  {
    if (_type == TypeInvalid)
      _type = t;
    else
      is(t);
  }
  void is(Type t) const
  {
    if (_type != t)
      throw XmlRpcException("type error: expected " + std::to_string(t) + ", got " + std::to_string(_type));
  }
  const XmlRpcValue& member(const std::string& k) const
  {
    is(TypeStruct);
    auto f = _m.find(k);
    if (f == _m.end())
      throw XmlRpcException("range error: no member " + k);
    return f->second;
  }
  Type _type = TypeInvalid;
  bool _b = false;
  int _i = 0;
  double _d = 0;
  std::string _s;
  BinaryData _x;
  struct tm _t = {};
  ValueArray _a;
  ValueStruct _m;
};
inline std::ostream& operator<<(std::ostream& o, const XmlRpcValue& v) { return v.write(o); }
}  // namespace XmlRpc
