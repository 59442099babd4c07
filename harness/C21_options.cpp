// BUILD: name=run san=asan libs=boost_program_options
// RULE: A case is a random declaration of positional, named and flag options of several types (with or without short name and default)
//   and a random command line which is valid by construction (long, short, joined and grouped forms, shuffled, `--` terminator) or made
//   invalid in a known manner. The parsed values are compared with those the command line was made from, for each parsing form, for
//   copies, and through asPair(). Non-trivial: at least one argument. Distinct: by declaration and command line.
#include "monitor.hpp"
#include "litl.hpp"

#include <cstring>
#include <iterator>

#include "LitlRun/ProgramOptions.h"

using namespace Litl;
namespace po = boost::program_options;

enum Type { Int, Real, Text, Long, Bool, Char, Many };
enum Kind { Positional, Named, Flag };

struct Option {
  std::string name; ///< Long
  char shortName = 0;
  Kind kind;
  Type type;
  std::vector<std::string> fallback; ///< Default value, as parsed
  bool hasDefault = false;
  std::vector<std::string> given; ///< Value on the command line
  bool isGiven = false;
  bool semantics = false; ///< Declared with custom semantics
  std::string declared() const {
    return shortName ? name + "," + shortName : name;
  }
  std::string show() const {
    return cat(kind == Positional ? "pos " : kind == Flag ? "flag " : "", declared(), ":", int(type), hasDefault ? cat("=", fallback) : "");
  }
};

static const char* longNames[] = {"alpha", "bravo", "charlie", "delta", "echo", "foxtrot", "golf", "hotel", "india", "juliet-kilo", "lima2", "Mike", "november_o"};

template <typename T>
T convert(const std::string& s) {
  std::istringstream iss(s);
  T out;
  iss >> out;
  return out;
}
template <>
std::string convert<std::string>(const std::string& s) {
  return s;
}
template <>
bool convert<bool>(const std::string& s) {
  return s == "1" || s == "true" || s == "on" || s == "yes";
}
template <>
double convert<double>(const std::string& s) {
  return std::strtod(s.c_str(), nullptr);
}

std::string draw(Type type, bool negative) {
  auto& r = mon().rng;
  switch (type) {
    case Int:
      return cat(r.chance(8) ? 2147483647 : int(r.range(negative ? -1000 : 0, 1000)));
    case Long:
      return cat(r.range(negative ? -1000000000000 : 0, 1000000000000));
    case Real: {
      char buffer[40];
      std::snprintf(buffer, 40, r.chance(3) ? "%.3e" : "%.6g", (r.unit() - (negative ? 0.5 : 0)) * 1000);
      return buffer;
    }
    case Bool:
      return r.pick(std::vector<std::string> {"0", "1", "true", "false", "on", "off", "yes", "no"});
    case Char:
      return std::string(1, char('a' + r.range(0, 25)));
    default: {
      std::string s;
      const int n = r.chance(60) ? r.range(100, 5000) : r.range(1, 12);
      static const char chars[] = "abcxyzABC0189_.,/=:-+@[]{}*?";
      for (int i = 0; i < n; ++i) {
        s += chars[r.range(i == 0 ? 0 : 0, (i == 0 ? 18 : int(sizeof(chars)) - 2))];
      }
      return s;
    }
  }
}

template <typename T>
void declareAs(ProgramOptions& o, const Option& d, const std::string& help) {
  const auto name = d.declared();
  if (d.semantics) {
    auto v = po::value<T>();
    if (d.hasDefault) {
      v->default_value(convert<T>(d.fallback[0]));
    }
    d.kind == Positional ? o.positional(name.c_str(), v, help.c_str()) : o.named(name.c_str(), v, help.c_str());
  } else if (d.kind == Positional) {
    d.hasDefault ? o.positional<T>(name.c_str(), help.c_str(), convert<T>(d.fallback[0])) : o.positional<T>(name.c_str(), help.c_str());
  } else {
    d.hasDefault ? o.named<T>(name.c_str(), help.c_str(), convert<T>(d.fallback[0])) : o.named<T>(name.c_str(), help.c_str());
  }
}

void declare(ProgramOptions& o, const Option& d) {
  const std::string help = "Help of " + d.name; // Temporary
  if (d.kind == Flag) {
    o.flag(d.declared().c_str(), help.c_str());
    return;
  }
  switch (d.type) {
    case Int:
      return declareAs<int>(o, d, help);
    case Real:
      return declareAs<double>(o, d, help);
    case Text:
      return declareAs<std::string>(o, d, help);
    case Long:
      return declareAs<long>(o, d, help);
    case Bool:
      return declareAs<bool>(o, d, help);
    case Char:
      return declareAs<char>(o, d, help);
    case Many: {
      auto v = po::value<std::vector<int>>();
      v->multitoken();
      const auto name = d.declared();
      d.kind == Positional ? o.positional(name.c_str(), v, help.c_str()) : o.named(name.c_str(), v, help.c_str());
    }
  }
}

template <typename T>
bool sameAs(T value, const std::string& text) {
  return value == convert<T>(text);
}

template <typename TAs>
bool compare(const Option& d, const std::vector<std::string>& text, TAs&& as) {
  switch (d.type) {
    case Int:
      return sameAs(as(int()), text[0]);
    case Real:
      return std::fabs(as(double()) - convert<double>(text[0])) <= 1e-12 * std::fabs(convert<double>(text[0]));
    case Text:
      return sameAs(as(std::string()), text[0]);
    case Long:
      return sameAs(as(long()), text[0]);
    case Bool:
      return sameAs(as(bool()), text[0]);
    case Char:
      return sameAs(as(char()), text[0]);
    default: {
      const auto v = as(std::vector<int>());
      bool same = v.size() == text.size();
      for (std::size_t i = 0; same && i < v.size(); ++i) {
        same = sameAs(v[i], text[i]);
      }
      return same;
    }
  }
}

void examine(const ProgramOptions& o, const std::vector<Option>& options, const char* form, bool given = true) {
  auto& m = mon();
  for (const auto& d : options) {
    const bool isGiven = given && d.isGiven;
    const bool set = isGiven || d.hasDefault;
    m.check(o.has(d.name.c_str()) == set, "has", [&] { return cat(form, ": ", d.name, " ", o.has(d.name.c_str())); });
    if (set && o.has(d.name.c_str())) {
      try {
        const bool same = compare(d, isGiven ? d.given : d.fallback, [&](auto v) { return o.as<decltype(v)>(d.name.c_str()); });
        m.check(same, isGiven ? "given-value" : "default-value", [&] { return cat(form, ": ", d.name, " is not ", isGiven ? d.given : d.fallback); });
      } catch (std::exception& e) {
        m.check(false, "as", [&] { return cat(form, ": ", d.name, " threw ", e.what()); });
      }
      m.count(isGiven ? "given values" : "default values");
    } else if (not set) {
      bool threw = false;
      try {
        compare(d, {"0"}, [&](auto v) { return o.as<decltype(v)>(d.name.c_str()); });
      } catch (std::exception&) {
        threw = true;
      }
      m.check(threw, "absent", [&] { return cat(form, ": ", d.name); });
      m.count("absent values");
    }
  }
  m.check(not o.has("zulu"), "undeclared", [&] { return form; });
}

std::vector<Option> drawOptions(bool manyAtEnd = true) {
  auto& r = mon().rng;
  std::vector<std::string> names(std::begin(longNames), std::end(longNames));
  std::vector<char> shorts {'a', 'b', 'c', 'd', 'n', 'v', 'X', 'z', '1', 'q'};
  const int n = r.range(1, 10);
  std::vector<Option> out;
  bool many = false;
  for (int i = 0; i < n; ++i) {
    Option d;
    const int k = r.range(0, names.size() - 1);
    d.name = names[k];
    names.erase(names.begin() + k);
    d.kind = Kind(r.range(0, 2));
    if (d.kind != Positional && r.chance(2) && shorts.size() > 1) {
      const int s = r.range(0, shorts.size() - 1);
      d.shortName = shorts[s];
      shorts.erase(shorts.begin() + s);
    }
    d.type = d.kind == Flag ? Bool : Type(r.range(0, 5));
    if (d.kind == Flag) {
      d.hasDefault = true;
      d.fallback = {"0"};
    } else if (d.kind == Named && r.chance(8)) {
      d.type = Many;
    } else if (r.chance(2)) {
      d.hasDefault = true;
      d.fallback = {draw(d.type, true)};
    }
    d.semantics = d.kind != Flag && (d.type == Many || r.chance(4));
    out.push_back(d);
  }
  if (manyAtEnd && r.chance(6)) {
    Option d;
    d.name = "rest";
    d.kind = Positional;
    d.type = Many;
    d.semantics = true;
    out.push_back(d);
  }
  return out;
}

/// Make a valid command line; groups of tokens
std::vector<std::string> drawLine(std::vector<Option>& options) {
  auto& r = mon().rng;
  using Tokens = std::vector<std::string>;
  std::vector<Tokens> groups; // In any order
  std::vector<std::string> positionals; // In order
  std::vector<std::size_t> flags;
  bool more = true; // Positional arguments
  const int density = r.range(1, 3);
  for (auto& d : options) {
    d.isGiven = r.range(0, 3) < density + (r.chance(2) ? 1 : 0);
    d.given.clear();
    if (d.kind == Positional) {
      d.isGiven = more && d.isGiven;
      more = d.isGiven;
      if (d.isGiven) {
        const int count = d.type == Many ? (r.chance(25) ? r.range(100, 3000) : r.range(1, 5)) : 1;
        for (int i = 0; i < count; ++i) {
          d.given.push_back(draw(d.type == Many ? Int : d.type, false));
          positionals.push_back(d.given.back());
        }
      }
      continue;
    }
    if (not d.isGiven) {
      continue;
    }
    const bool byShort = d.shortName && r.chance(2);
    const auto key = byShort ? std::string("-") + d.shortName : "--" + d.name;
    if (d.kind == Flag) {
      d.given = {"1"};
      groups.push_back({key});
    } else if (d.type == Many) {
      const int count = r.range(1, 4);
      Tokens group {key};
      for (int i = 0; i < count; ++i) {
        d.given.push_back(draw(Int, false));
        group.push_back(d.given.back());
      }
      groups.push_back(group);
    } else {
      d.given = {draw(d.type, true)};
      switch (r.range(0, 1)) {
        case 0:
          groups.push_back({key, d.given[0]});
          break;
        default:
          groups.push_back({key + (byShort ? "" : "=") + d.given[0]});
      }
    }
  }
  // Group adjacent short flags: -ab
  for (std::size_t i = 0; i + 1 < groups.size();) {
    const auto isFlag = [&](const Tokens& g) {
      if (g.size() != 1 || g[0].size() < 2 || g[0][0] != '-' || g[0][1] == '-') {
        return false;
      }
      for (const auto& d : options) {
        if (d.shortName == g[0][1]) {
          return d.kind == Flag;
        }
      }
      return false;
    };
    if (r.chance(2) && isFlag(groups[i]) && isFlag(groups[i + 1])) {
      groups[i][0] += groups[i + 1][0].substr(1);
      groups.erase(groups.begin() + i + 1);
      mon().count("grouped flags");
    } else {
      ++i;
    }
  }
  for (std::size_t i = groups.size(); i > 1; --i) {
    std::swap(groups[i - 1], groups[r.range(0, i - 1)]);
  }
  // Interleave
  Tokens out {r.chance(2) ? "exe" : "/usr/bin/some-program"};
  std::size_t p = 0;
  bool open = false; // The latest group would take positional arguments
  for (const auto& g : groups) {
    while (not open && p < positionals.size() && r.chance(2)) {
      out.push_back(positionals[p++]);
    }
    out.insert(out.end(), g.begin(), g.end());
    open = false;
    for (const auto& d : options) {
      open = open || (d.type == Many && d.kind == Named && (g[0] == "--" + d.name || (d.shortName && g[0] == std::string("-") + d.shortName)));
    }
  }
  if (p < positionals.size() && (open || r.chance(5))) {
    out.push_back("--");
    mon().count("terminators");
  }
  while (p < positionals.size()) {
    out.push_back(positionals[p++]);
  }
  return out;
}

std::string join(const std::vector<std::string>& args) {
  std::string out;
  for (const auto& a : args) {
    out += (out.empty() ? "" : " ") + a;
  }
  return out;
}

std::vector<const char*> pointers(const std::vector<std::string>& args) {
  std::vector<const char*> out;
  for (const auto& a : args) {
    out.push_back(a.c_str());
  }
  return out;
}

std::string showAll(const std::vector<Option>& options) {
  std::string out;
  for (const auto& d : options) {
    out += d.show() + "; ";
  }
  return out;
}

template <typename F>
bool fails(F&& f) {
  try {
    f();
    return false;
  } catch (std::exception&) {
    return true;
  }
}

SCENARIO(valid) {
  auto& m = mon();
  auto& r = m.rng;
  for (int k = 0; k < 700 * m.scale; ++k) {
    auto options = drawOptions();
    const std::string description = r.chance(2) ? "" : "The description";
    ProgramOptions o(description);
    for (const auto& d : options) {
      declare(o, d);
    }
    const auto args = drawLine(options);
    m.begin(cat(showAll(options), "| ", join(args)), args.size() > 1);
    const auto attempt = [&](const char* form, auto&& f) {
      try {
        f();
        m.count(form);
        return true;
      } catch (std::exception& e) {
        m.check(false, "valid-rejected", [&] { return cat(form, ": ", e.what()); });
        return false;
      }
    };
    { // Before parsing
      for (const auto& d : options) {
        m.check(not o.has(d.name.c_str()), "unparsed");
      }
    }
    const ProgramOptions pristine = o;
    {
      ProgramOptions c = o;
      std::vector<std::string> copy = args;
      if (attempt("list of strings", [&] { c.parse(copy); })) {
        copy.assign(copy.size(), std::string(100, 'x')); // Values do not depend on the arguments any more
        examine(c, options, "strings");
        // Copies of parsed options
        ProgramOptions d = c;
        examine(d, options, "copy of parsed");
        const ProgramOptions e = std::move(d);
        examine(e, options, "moved from parsed");
      }
    }
    {
      ProgramOptions c = pristine;
      const auto p = pointers(args);
      if (attempt("list of pointers", [&] { c.parse(p); })) {
        examine(c, options, "pointers");
      }
    }
    {
      ProgramOptions c = o;
      auto p = pointers(args);
      p.push_back(nullptr); // As of main
      if (attempt("argc and argv", [&] { c.parse(int(p.size()) - 1, p.data()); })) {
        examine(c, options, "argv");
      }
    }
    {
      ProgramOptions c(pristine);
      std::string line;
      for (const auto& a : args) {
        line += std::string(r.range(line.empty() ? 0 : 1, 3), r.chance(4) ? '\t' : ' ') + a;
      }
      line += std::string(r.range(0, 2), ' ');
      if (attempt("one string", [&] { c.parse(line); })) {
        examine(c, options, "string");
      }
    }
    {
      const auto pair = pristine.asPair();
      po::variables_map vm;
      auto p = pointers(args);
      if (attempt("pair", [&] {
            po::store(po::command_line_parser(p.size(), p.data()).options(pair.first).positional(pair.second).run(), vm);
            po::notify(vm);
          })) {
        for (const auto& d : options) {
          m.check(vm.count(d.name) == (d.isGiven || d.hasDefault), "pair-has");
          if (vm.count(d.name)) {
            m.check(compare(d, d.isGiven ? d.given : d.fallback, [&](auto v) { return vm[d.name].as<decltype(v)>(); }), "pair-value", [&] { return d.name; });
          }
        }
      }
      std::ostringstream help;
      help << pair.first;
      const auto text = help.str();
      m.check(text.find(description) == 0, "description", [&] { return text; });
      std::size_t at = 0;
      for (const auto& d : options) {
        const auto found = text.find("--" + d.name, at);
        const auto body = found == std::string::npos ? found : text.find("Help of " + d.name, found);
        m.check(body != std::string::npos, "help", [&] { return cat(d.name, " in ", text); });
        at = body == std::string::npos ? at : body;
      }
    }
    // The original is unaffected by the parsing of copies
    for (const auto& d : options) {
      m.check(not o.has(d.name.c_str()), "copy-parsed-original");
    }
  }
}

SCENARIO(spaces) { // Arguments with spaces or empty
  auto& m = mon();
  auto& r = m.rng;
  for (int k = 0; k < 200 * m.scale; ++k) {
    ProgramOptions o("Spaces");
    o.positional<std::string>("first", "First");
    o.positional<std::string>("second", "Second", "none");
    o.named<std::string>("third,t", "Third", "");
    const auto word = [&] {
      std::string s = r.pick(std::vector<std::string> {"a b", " ", "x  y z ", "tab\tbed", "line\nfeed", "a=b c", "\xc3\xa9t\xc3\xa9"});
      return s + cat(r.range(0, 9));
    };
    const auto a = word(), b = word(), c = word();
    m.begin(cat("spaces '", a, "' '", b, "' '", c, "'"), true);
    o.parse(std::vector<std::string> {"some exe", a, "--third", c, b});
    m.check(o.as<std::string>("first") == a, "spaces-positional", [&] { return o.as<std::string>("first"); });
    m.check(o.as<std::string>("second") == b, "spaces-positional", [&] { return o.as<std::string>("second"); });
    m.check(o.as<std::string>("third") == c, "spaces-named", [&] { return o.as<std::string>("third"); });
  }
}

SCENARIO(invalid) {
  auto& m = mon();
  auto& r = m.rng;
  for (int k = 0; k < 700 * m.scale; ++k) {
    auto options = drawOptions();
    ProgramOptions o("Invalid");
    for (const auto& d : options) {
      declare(o, d);
    }
    auto args = drawLine(options);
    const bool terminated = std::find(args.begin(), args.end(), "--") != args.end();
    const auto front = args.begin() + 1;
    const auto pick = [&](auto&& f) -> const Option* {
      std::vector<const Option*> found;
      for (const auto& d : options) {
        if (f(d)) {
          found.push_back(&d);
        }
      }
      return found.empty() ? nullptr : r.pick(found);
    };
    std::string manner;
    switch (r.range(0, 5)) {
      case 0:
        manner = "unknown long";
        args.insert(front, r.chance(2) ? "--zulu" : "--zulu=1");
        break;
      case 1:
        manner = "unknown short";
        args.insert(front, "-Z");
        break;
      case 2:
        if (const auto d = pick([](const Option& d) { return d.kind == Named && not d.isGiven; })) {
          manner = "missing value";
          if (terminated) {
            continue;
          }
          args.push_back("--" + d->name);
          break;
        }
        continue;
      case 3:
        if (const auto d = pick([](const Option& d) { return d.kind == Named && not d.isGiven && d.type != Text; })) {
          manner = "wrong type";
          args.insert(front, cat("--", d->name, "=", d->type == Int && r.chance(2) ? "1.5" : d->type == Int && r.chance(2) ? "2147483648" : r.chance(2) ? "12x" : "x y"));
          break;
        }
        continue;
      case 4: {
        if (options.back().name == "rest" && options.back().kind == Positional) {
          continue;
        }
        int count = 0;
        for (const auto& d : options) {
          count += d.kind == Positional;
        }
        manner = "too many";
        args = {"exe"};
        for (int i = 0; i <= count; ++i) {
          args.push_back("0");
        }
        break;
      }
      case 5:
        if (const auto d = pick([](const Option& d) { return d.kind == Named && d.isGiven && d.type != Many; })) {
          manner = "twice";
          args.insert(front, cat("--", d->name, "=", d->given[0]));
          break;
        }
        continue;
    }
    m.begin(cat(manner, " in ", showAll(options), "| ", join(args)), true);
    for (int form = 0; form < 3; ++form) {
      ProgramOptions c = o;
      const bool threw = fails([&] {
        form == 0 ? c.parse(args) : form == 1 ? c.parse(pointers(args)) : c.parse(int(args.size()), pointers(args).data());
      });
      m.check(threw, "accepted", [&] { return cat(manner, " form ", form); });
    }
    m.count(manner);
  }
}

SCENARIO(copies) {
  auto& m = mon();
  auto& r = m.rng;
  for (int k = 0; k < 200 * m.scale; ++k) {
    auto all = drawOptions(false);
    const std::size_t split = r.range(0, all.size());
    auto* a = new ProgramOptions("Copies");
    for (std::size_t i = 0; i < split; ++i) {
      declare(*a, all[i]);
    }
    ProgramOptions b = *a; // Diverge
    const ProgramOptions c = b;
    m.begin(cat("copies at ", split, " of ", showAll(all)), all.size() > split);
    for (std::size_t i = split; i < all.size(); ++i) {
      declare(b, all[i]);
    }
    std::vector<Option> some(all.begin(), all.begin() + split);
    const bool destroyed = r.chance(2);
    if (destroyed) {
      delete a;
    }
    for (int j = 0; j < 3; ++j) {
      auto d = b;
      const auto args = drawLine(all);
      bool ok = not fails([&] { d.parse(args); });
      m.check(ok, "copy-declared", [&] { return join(args); });
      if (ok) {
        examine(d, all, "copy");
      }
      auto e = destroyed ? c : *a;
      const auto fewer = drawLine(some);
      ok = not fails([&] { e.parse(fewer); });
      m.check(ok, "original-declared", [&] { return join(fewer); });
      if (ok) {
        examine(e, some, "original");
      }
      for (std::size_t i = split; i < all.size(); ++i) { // Unknown there
        const auto& d = all[i];
        auto f = c;
        if (d.kind != Positional) {
          m.check(fails([&] { f.parse(std::vector<std::string> {"exe", d.kind == Flag ? "--" + d.name : "--" + d.name + "=1"}); }), "copy-shared", [&] { return d.name; });
        }
      }
    }
    if (not destroyed) {
      delete a;
    }
    m.count("divergences");
  }
}

VP_MAIN
