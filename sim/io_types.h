// Vectors and matrices of several element types behind one interface, with an
// independent model of what their textual form means.
#ifndef SIM_IO_TYPES_H
#define SIM_IO_TYPES_H
#include "core.h"
#include "os.h"
#include <functional>
#include <memory>
#include <sstream>
namespace sim::io {
typedef std::vector<std::string> Row;
typedef std::vector<Row> Rows;
// An object under test.
struct Obj {
  virtual ~Obj() {}
  virtual void preset(int r, int c) = 0;               // give it these dimensions
  virtual bool load(const std::string &name) = 0;      // load_from_file
  virtual bool load_zero(const std::string &name) = 0; // onto a default-constructed object
  virtual bool read(std::istream &is) = 0;             // >>
  virtual bool read_iss(std::istringstream &is) { return read(is); }
  virtual bool write(std::ostream &os) = 0;            // <<
  virtual int store(const std::string &name) = 0;      // 1 success, 0 failure, -1 no such operation
  virtual bool bracket(const std::string &s, bool &supported) = 0;
  virtual Rows rows() = 0;
  virtual bool equal(Obj &that) = 0;
  virtual bool has_load() = 0;
  virtual bool has_zero() = 0;
};
struct Kind {
  const char *name; bool vec; bool bits; bool list; // list: elements read one after another
  std::function<std::unique_ptr<Obj>()> mk;
  // Reads one element of a token at pos, gives its printed form; greedy.
  // 0: there is none; 2: there is one in an unusual form.
  std::function<int(const std::string &tok, size_t &pos, std::string &printed)> lex;
  std::function<std::string(Rng &)> gen;               // a well-formed token
};
const std::vector<Kind> &kinds();
const Kind *kind(const std::string &name);
// What a text says.
struct Val {
  bool accept = false;     // a complete object is written in the text
  bool odd = false;        // unusual enough that rejecting it is as good
  Rows rows;
  size_t need = 0;         // bytes that must have arrived to know it; SIZE_MAX: the end of the data
  size_t next = 0;         // where the next object starts
};
// All readings of the text from offset `from' (a comment alone on a line may
// end a matrix or be skipped).
std::vector<Val> model(const Kind &k, const std::string &text, size_t from = 0);
std::string show(const Rows &r);
} // namespace sim::io
#endif
