// C05: several threads use one GenericParameters object (or the parameters of
// one Frame). Every interleaving up to a preemption bound has to give what some
// sequential order of the calls gives.
#include "mc.h"
#include "vf.h"
#include "podio/Frame.h"
#include "podio/GenericParameters.h"
#include <algorithm>
#include <map>
#include <memory>
#include <set>
#include <sstream>

using podio::GenericParameters;

namespace {
template <class T>
T val(int i) {
  if constexpr (std::is_same_v<T, std::string>) {
    return "a value that does not fit into a small buffer, number " + std::to_string(i);
  } else {
    return static_cast<T>(i + 0.5);
  }
}
template <class T>
std::string text(const T& v) {
  if constexpr (std::is_same_v<T, std::string>) {
    return v;
  } else {
    return std::to_string(v);
  }
}
template <class T>
std::string text(const std::vector<T>& v) {
  std::string r = "[";
  for (auto& e : v) {
    r += text(e) + ",";
  }
  return r + "]";
}
template <class T>
std::string text(const std::optional<T>& v) {
  return v ? text(*v) : std::string("none");
}

// contents of one type, through the public interface
template <class T>
std::string contents(const GenericParameters& p) {
  auto keys = p.getKeys<T>();
  std::sort(keys.begin(), keys.end());
  std::string r;
  for (auto& k : keys) {
    r += k + "=" + text(p.get<std::vector<T>>(k)) + std::to_string(p.getN<T>(k)) + " ";
  }
  return r;
}
std::string everything(const GenericParameters& p) {
  return "i:" + contents<int>(p) + "f:" + contents<float>(p) + "d:" + contents<double>(p) + "s:" + contents<std::string>(p);
}

// what print shows of one type
template <class T>
std::string printed(const GenericParameters& p) {
  std::ostringstream os;
  p.print(os);
  // the sections in order: int, float, double, string
  const std::string all = os.str();
  const char* heads[] = {"int parameters", "float parameters", "double parameters", "std::string parameters"};
  const int which = std::is_same_v<T, int> ? 0 : std::is_same_v<T, float> ? 1 : std::is_same_v<T, double> ? 2 : 3;
  const auto from = all.find(heads[which]);
  const auto to = which < 3 ? all.find(heads[which + 1]) : all.size();
  std::istringstream is(from == std::string::npos ? "" : all.substr(from, to - from));
  std::vector<std::string> lines;
  std::string l;
  while (std::getline(is, l)) {
    lines.push_back(l);
  }
  std::sort(lines.begin(), lines.end());
  std::string r;
  for (auto& x : lines) {
    r += x + "/";
  }
  return r;
}

enum Op { SetA, SetVecA, SetVecB, GetA, GetVecA, GetB, Keys, KeysValues, GetN, Load, Copy, Clear, Empty, Print, NOps };
const char* const opName[] = {"set(a)", "set(a,vector)", "set(b,vector)", "get(a)", "get(a,vector)", "get(b)", "getKeys",
                              "getKeysAndValues", "getN(a)", "loadFrom(a,b)", "copy", "clear", "empty", "print"};

template <class T>
void doOp(GenericParameters& p, int op, int who, std::string& out) {
  switch (op) {
  case SetA:
    p.set<T>("a", val<T>(10 * who));
    break;
  case SetVecA:
    p.set("a", std::vector<T>{val<T>(10 * who), val<T>(10 * who + 1), val<T>(10 * who + 2), val<T>(10 * who + 3)});
    break;
  case SetVecB:
    p.set("b", std::vector<T>{val<T>(10 * who), val<T>(10 * who + 1)});
    break;
  case GetA:
    out += text(p.get<T>("a"));
    break;
  case GetVecA:
    out += text(p.get<std::vector<T>>("a"));
    break;
  case GetB:
    out += text(p.get<T>("b"));
    break;
  case Keys: {
    auto k = p.getKeys<T>();
    std::sort(k.begin(), k.end());
    out += text(k);
    break;
  }
  case KeysValues: {
    const auto [k, v] = p.getKeysAndValues<T>();
    std::vector<std::string> l;
    VF_EQ(k.size(), v.size(), "keys-and-values");
    for (size_t i = 0; i < k.size(); ++i) {
      l.push_back(k[i] + text(v[i]));
    }
    std::sort(l.begin(), l.end());
    out += text(l);
    break;
  }
  case GetN:
    out += std::to_string(p.getN<T>("a"));
    break;
  case Load:
    p.loadFrom<T, std::vector>(std::vector<std::string>{"a", "b"}, std::vector<std::vector<T>>{{val<T>(1000 + who)}, {val<T>(2000 + who)}});
    break;
  case Copy: {
    GenericParameters q(p);
    out += contents<T>(q);
    break;
  }
  case Clear:
    p.clear();
    break;
  case Empty:
    out += p.empty() ? "empty" : "not empty";
    break;
  case Print:
    out += printed<T>(p);
    break;
  }
  out += "|";
}

using Program = std::vector<std::vector<int>>;
template <class T>
void initial(GenericParameters& p, int init) {
  if (init) {
    p.set("a", std::vector<T>{val<T>(1), val<T>(2), val<T>(3)});
  }
}

template <class T>
std::string outcome(GenericParameters& p, const std::vector<std::string>& res) {
  std::string r;
  for (auto& s : res) {
    r += s + "\n";
  }
  return r + contents<T>(p) + (p.empty() ? "empty" : "");
}

template <class Run, class Collect>
void allOrders(const Program& p, Run&& run, Collect&& collect) {
  std::vector<size_t> pos(p.size());
  std::vector<int> order;
  auto rec = [&](auto& self) -> void {
    bool done = true;
    for (size_t t = 0; t < p.size(); ++t) {
      if (pos[t] < p[t].size()) {
        done = false;
        pos[t]++;
        order.push_back(static_cast<int>(t));
        self(self);
        order.pop_back();
        pos[t]--;
      }
    }
    if (done) {
      collect(run(order));
    }
  };
  rec(rec);
}

// W: factory of a world with op(thread, op) and outcome()
template <class W>
void explore(const std::string& id, const Program& p, const char* const* names, int preemptions, auto&& make) {
  static std::string last;
  static std::set<std::string> expect;
  std::string key = id;
  for (auto& t : p) {
    key += "/";
    for (int o : t) {
      key += std::to_string(o) + ",";
    }
  }
  if (key != last) {
    vf::NotCounted nc;
    last = key;
    expect.clear();
    allOrders(
        p,
        [&](const std::vector<int>& order) {
          std::unique_ptr<W> w = make();
          std::vector<size_t> at(p.size());
          for (int t : order) {
            w->op(t, p[t][at[t]++]);
          }
          return w->outcome();
        },
        [&](std::string s) { expect.insert(std::move(s)); });
  }
  if (vf::tracing()) {
    vf::trace("%s", id.c_str());
    for (size_t t = 0; t < p.size(); ++t) {
      for (int o : p[t]) {
        vf::trace("thread %zu: %s", t, names[o]);
      }
    }
  }
  std::unique_ptr<W> w = make();
  std::vector<std::function<void()>> bodies;
  for (size_t t = 0; t < p.size(); ++t) {
    bodies.push_back([&, t] {
      for (int o : p[t]) {
        w->op(static_cast<int>(t), o);
      }
    });
  }
  mc::run(bodies, preemptions);
  const auto out = w->outcome();
  if (!expect.contains(out)) {
    vf::failf("not-sequential", "no sequential order of the calls gives\n%s\none gives\n%s", out.substr(0, 500).c_str(),
              expect.begin()->substr(0, 500).c_str());
  }
  vf::state(id + out);
}

template <class T>
struct World {
  GenericParameters p;
  std::vector<std::string> res;
  World(int init, size_t n) : res(n) { initial<T>(p, init); }
  void op(int t, int o) { doOp<T>(p, o, t + 1, res[t]); }
  std::string outcome() { return ::outcome<T>(p, res); }
};

void oneType(const Program& p, int type, int init, int preemptions) {
  auto go = [&]<class T>(const char* name) {
    explore<World<T>>(std::string(name) + (init ? " (filled)" : " (empty)"), p, opName, preemptions,
                      [&] { return std::make_unique<World<T>>(init, p.size()); });
  };
  switch (type) {
  case 0:
    return go.template operator()<int>("int");
  case 1:
    return go.template operator()<float>("float");
  case 2:
    return go.template operator()<double>("double");
  default:
    return go.template operator()<std::string>("string");
  }
}
} // namespace

VF_SCENARIO_OPT(two_calls, 4, 8, 3, true) {
  const int a = vf::choose(NOps), b = vf::choose(NOps), type = vf::choose(4), init = vf::choose(2);
  if (b < a) {
    vf::prune();
  }
  oneType({{a}, {b}}, type, init, vf::depth());
}
VF_SCENARIO_OPT(two_against_one, 2, 4, 4, true) {
  const int a = vf::choose(NOps), b = vf::choose(NOps), c = vf::choose(NOps), type = vf::choose(vf::thorough() ? 4 : 2), init = vf::choose(2);
  oneType({{a, b}, {c}}, type ? 4 - type : 0, init, vf::depth());
}
VF_SCENARIO_OPT(three_threads, 2, 3, 4, true) {
  const int a = vf::choose(NOps), b = vf::choose(NOps), c = vf::choose(NOps), type = vf::choose(vf::thorough() ? 4 : 1), init = vf::choose(2);
  if (b < a || c < b) {
    vf::prune();
  }
  oneType({{a}, {b}, {c}}, type ? type - 1 : 3, init, vf::depth());
}
VF_SCENARIO_OPT(two_against_two, 0, 2, 5, true) {
  if (!vf::thorough()) {
    return;
  }
  const int a = vf::choose(NOps), b = vf::choose(NOps), c = vf::choose(NOps), d = vf::choose(NOps), init = vf::choose(2);
  if (c < a) {
    vf::prune();
  }
  oneType({{a, b}, {c, d}}, 3, init, vf::depth());
}

// ------------------------------------------------------------ several types and objects
namespace {
// operations on different types, and copies of all of them
enum MOp { SetI, SetF, SetD, SetS, CopyP, CopyQ, ReadI, ReadS, MClear, SetQ, MNOps };
const char* const mName[] = {"set<int>", "set<float>", "set<double>", "set<string>", "copy p", "copy q", "get<int>", "get<string>", "clear p", "q.set"};
struct Mixed {
  GenericParameters p, q;
  std::vector<std::string> res;
  explicit Mixed(size_t n) : res(n) {
    p.set("k", 1);
    p.set("k", std::string("one"));
    q.set("q", 2.5);
  }
  void op(int t, int o) {
    const int v = 10 * (t + 1);
    switch (o) {
    case SetI:
      p.set("k", v);
      break;
    case SetF:
      p.set("k", std::vector<float>{static_cast<float>(v)});
      break;
    case SetD:
      p.set("k", v + 0.25);
      break;
    case SetS:
      p.set("k", val<std::string>(v));
      break;
    case CopyP:
      res[t] += everything(GenericParameters(p)) + "|";
      break;
    case CopyQ:
      res[t] += everything(GenericParameters(q)) + "|";
      break;
    case ReadI:
      res[t] += text(p.get<int>("k")) + "|";
      break;
    case ReadS:
      res[t] += text(p.get<std::string>("k")) + "|";
      break;
    case MClear:
      p.clear();
      break;
    case SetQ:
      q.set("q", v);
      break;
    }
  }
  std::string outcome() {
    std::string r;
    for (auto& s : res) {
      r += s + "\n";
    }
    return r + everything(p) + everything(q);
  }
};
// parameters of a Frame
enum FOp { PutI, PutVS, PutFL, GetI, GetVS, KeysI, KeysS, Params, FNOps };
const char* const fName[] = {"putParameter(int)", "putParameter(strings)", "putParameter(floats)", "getParameter<int>", "getParameter<vector<string>>",
                             "getParameterKeys<int>", "getParameterKeys<string>", "copy of getParameters"};
struct InFrame {
  podio::Frame f;
  std::vector<std::string> res;
  explicit InFrame(size_t n) : res(n) {
    f.putParameter("k", 1);
    f.putParameter("j", 2);
  }
  void op(int t, int o) {
    const int v = 10 * (t + 1);
    switch (o) {
    case PutI:
      f.putParameter("k", v);
      break;
    case PutVS:
      f.putParameter("k", {val<std::string>(v), "x"});
      break;
    case PutFL:
      f.putParameter("k" + std::to_string(t), std::vector<float>{0.5f, static_cast<float>(v)});
      break;
    case GetI:
      res[t] += text(f.getParameter<int>("k")) + "|";
      break;
    case GetVS:
      res[t] += text(f.getParameter<std::vector<std::string>>("k")) + "|";
      break;
    case KeysI:
    case KeysS: {
      auto k = o == KeysI ? f.getParameterKeys<int>() : f.getParameterKeys<std::string>();
      std::sort(k.begin(), k.end());
      res[t] += text(k) + "|";
      break;
    }
    case Params:
      res[t] += everything(GenericParameters(f.getParameters())) + "|";
      break;
    }
  }
  std::string outcome() {
    std::string r;
    for (auto& s : res) {
      r += s + "\n";
    }
    return r + everything(f.getParameters());
  }
};
} // namespace

VF_SCENARIO_OPT(several_types, 2, 4, 3, true) {
  const int a = vf::choose(MNOps), b = vf::choose(MNOps), c = vf::choose(MNOps);
  explore<Mixed>("mixed", {{a, b}, {c}}, mName, vf::depth(), [&] { return std::make_unique<Mixed>(2); });
}
VF_SCENARIO_OPT(in_a_frame, 2, 4, 3, true) {
  const int a = vf::choose(FNOps), b = vf::choose(FNOps), c = vf::choose(FNOps);
  explore<InFrame>("frame", {{a, b}, {c}}, fName, vf::depth(), [&] { return std::make_unique<InFrame>(2); });
}
