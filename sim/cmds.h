// Command lines of the tool: a small grammar of commands that do their job,
// commands that cannot, and sub-commands that can stand for an argument.
#ifndef SIM_CMDS_H
#define SIM_CMDS_H
#include "core.h"
#include "os.h"
namespace sim::cmds {
typedef std::vector<std::string> Args;
struct Cmd {
  Args args;                                             // without the program name
  std::string in;                                        // standard input
  std::vector<std::pair<std::string, std::string>> files; // name, content
};
// How often an argument is given as a braced sub-command (per cent), and how
// deep they may nest.
struct Style { int brace = 0; int depth = 0; bool big = false; };
Cmd good(Rng &r, const Style &s);          // a command that does its job
Cmd good_io(Rng &r);                       // one that reads standard input or a file
Cmd bad(Rng &r);                           // one that cannot do its job
void mangle(Rng &r, Cmd &c);               // makes one of its arguments unacceptable
Args hostile(Rng &r);                      // a sub-command with arguments a shell treats specially
std::string matrix_text(Rng &r, int n, int m, int lo, int hi); // rows of numbers
void put(Plan &p, const Cmd &c);           // one line
void put_split(Plan &p, const Cmd &c);     // one line per argument
Cmd get(const Line &l);
Cmd get_split(const Plan &p);
os::Proc proc(const Cmd &c);               // also creates the files
std::string show(const Args &a);
Args words(const std::string &s);
} // namespace sim::cmds
#endif
