// Stand-in for the (absent) happly submodule: the same interface geometry-central uses, an in-memory typed property
// table with a plain text serialisation (values written as hex floats, so nothing is lost).  It is part of the test
// environment, not of the code under test: the PLY byte format itself is outside what the checks claim.
#pragma once
#include <array>
#include <cstdint>
#include <fstream>
#include <iostream>
#include <map>
#include <sstream>
#include <stdexcept>
#include <string>
#include <type_traits>
#include <vector>
namespace happly {
enum class DataFormat { ASCII, Binary, BinaryBigEndian };
template <class T> inline double toD(const T& t) { return (double)t; }
class Element {
public:
  Element(const std::string& n = "", size_t c = 0) : name(n), count(c) {}
  std::string name;
  size_t count;
  std::map<std::string, std::vector<double>> props;
  std::map<std::string, std::vector<std::vector<double>>> listProps;
  bool hasProperty(const std::string& p) { return props.count(p) || listProps.count(p); }
  template <class T> void addProperty(const std::string& p, const std::vector<T>& v) {
    if (v.size() != count) throw std::runtime_error("PLY write: element " + name + " has wrong number of entries in " + p);
    std::vector<double> d(v.size());
    for (size_t i = 0; i < v.size(); i++) d[i] = toD<T>(v[i]);
    props[p] = d;
  }
  template <class T> void addListProperty(const std::string& p, const std::vector<std::vector<T>>& v) {
    if (v.size() != count) throw std::runtime_error("PLY write: wrong list length");
    std::vector<std::vector<double>> d;
    for (auto& r : v) d.emplace_back(r.begin(), r.end());
    listProps[p] = d;
  }
  template <class T> std::vector<T> getProperty(const std::string& p) {
    if (!props.count(p)) throw std::runtime_error("PLY parser: element " + name + " does not have property " + p);
    std::vector<T> r;
    for (double d : props[p]) r.push_back((T)d);
    return r;
  }
};
class PLYData {
public:
  std::vector<Element> elements;
  PLYData() {}
  PLYData(const std::string& f, bool = false) {
    std::ifstream in(f);
    if (!in) throw std::runtime_error("PLY parser: Could not open file " + f);
    parse(in);
  }
  PLYData(std::istream& in, bool = false) { parse(in); }
  bool hasElement(const std::string& n) {
    for (auto& e : elements) if (e.name == n) return true;
    return false;
  }
  Element& getElement(const std::string& n) {
    for (auto& e : elements) if (e.name == n) return e;
    throw std::runtime_error("PLY parser: no element with name: " + n);
  }
  void addElement(const std::string& n, size_t c) { elements.emplace_back(n, c); }
  void addVertexPositions(std::vector<std::array<double, 3>>& v) {
    if (!hasElement("vertex")) addElement("vertex", v.size());
    const char* nm[3] = {"x", "y", "z"};
    for (int k = 0; k < 3; k++) {
      std::vector<double> d;
      for (auto& p : v) d.push_back(p[k]);
      getElement("vertex").addProperty<double>(nm[k], d);
    }
  }
  std::vector<std::array<double, 3>> getVertexPositions() {
    auto x = getElement("vertex").getProperty<double>("x"), y = getElement("vertex").getProperty<double>("y"),
         z = getElement("vertex").getProperty<double>("z");
    std::vector<std::array<double, 3>> r(x.size());
    for (size_t i = 0; i < x.size(); i++) r[i] = {{x[i], y[i], z[i]}};
    return r;
  }
  template <class T> void addFaceIndices(std::vector<std::vector<T>>& v) {
    if (!hasElement("face")) addElement("face", v.size());
    getElement("face").addListProperty<T>("vertex_indices", v);
  }
  template <class T = size_t> std::vector<std::vector<T>> getFaceIndices() {
    std::vector<std::vector<T>> r;
    for (auto& l : getElement("face").listProps["vertex_indices"]) r.emplace_back(l.begin(), l.end());
    return r;
  }
  void write(const std::string& f, DataFormat fmt = DataFormat::ASCII) {
    std::ofstream o(f);
    write(o, fmt);
  }
  void write(std::ostream& o, DataFormat = DataFormat::ASCII) {
    std::ostringstream s;
    s << std::hexfloat;
    s << "plyshim " << elements.size() << "\n";
    for (auto& e : elements) {
      s << e.name << " " << e.count << " " << e.props.size() << " " << e.listProps.size() << "\n";
      for (auto& p : e.props) {
        s << p.first;
        for (double d : p.second) s << " " << d;
        s << "\n";
      }
      for (auto& p : e.listProps) {
        s << p.first;
        for (auto& l : p.second) {
          s << " " << l.size();
          for (double d : l) s << " " << d;
        }
        s << "\n";
      }
    }
    o << s.str();
  }

private:
  static double rd(std::istream& in) {
    std::string t;
    in >> t;
    return std::strtod(t.c_str(), nullptr);
  }
  void parse(std::istream& in) {
    std::string magic;
    size_t ne;
    in >> magic >> ne;
    if (magic != "plyshim") throw std::runtime_error("PLY parser: Failed to find magic");
    for (size_t i = 0; i < ne; i++) {
      std::string n;
      size_t c, np, nl;
      in >> n >> c >> np >> nl;
      Element e(n, c);
      for (size_t j = 0; j < np; j++) {
        std::string p;
        in >> p;
        std::vector<double> d(c);
        for (auto& x : d) x = rd(in);
        e.props[p] = d;
      }
      for (size_t j = 0; j < nl; j++) {
        std::string p;
        in >> p;
        std::vector<std::vector<double>> d(c);
        for (auto& l : d) {
          size_t k;
          in >> k;
          l.resize(k);
          for (auto& x : l) x = rd(in);
        }
        e.listProps[p] = d;
      }
      elements.push_back(e);
    }
  }
};
} // namespace happly
