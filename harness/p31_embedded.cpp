// P31: Python components inside C++ programs (wrapper, module loader, python_runner).
#include "apps.hpp"

#include <libpml/empty_parameter_config.hpp>
#include <libpml/scalar_parameter.hpp>
#include <libpythoncomponents/wrapper.hpp>
#include <libpythonsupport/gil_ensure_guard.hpp>
#include <libpythonsupport/initialisation_guard.hpp>
#include <libpythonsupport/load_module.hpp>
#include <libvisr/audio_input.hpp>
#include <libvisr/audio_output.hpp>
#include <libvisr/composite_component.hpp>
#include <libvisr/parameter_input.hpp>
#include <libvisr/parameter_output.hpp>

#include <pybind11/eval.h>
#include <pybind11/pybind11.h>
#include <pybind11/stl.h>

#include <numeric>
#include <thread>

int python_runner_main(int, char const* const*);

namespace py = pybind11;
using namespace visr;
using namespace appline;
using pythoncomponents::Wrapper;

namespace
{
typedef pml::ScalarParameter<double> Control;
typedef pml::ScalarParameter<int> Report;

char const* const classText = R"py(
import sys
import numpy as np
import visr, pml

class Mixer(visr.AtomicComponent):
    """outputs = gains * inputs + step * (number of the block), times the control value"""
    def __init__(self, context, name, parent, ins, outs, gains, step=0.0, control=False, report=False, failing=(), abort=0):
        if abort == 1:
            raise ValueError('refused before the initialisation')
        if abort == 2:
            return
        super(Mixer, self).__init__(context, name, parent)
        sys.verif_alive += 1
        self.counted = True
        if abort == 3:
            raise ValueError('refused by the component')
        self.ins = [visr.AudioInputFloat('in%d' % i, self, w) for i, w in enumerate(ins)]
        self.control = visr.ParameterInput('control', self, pml.Double.staticType, pml.DoubleBufferingProtocol.staticType,
                                           pml.EmptyParameterConfig()) if control else None
        self.outs = [visr.AudioOutputFloat('out%d' % i, self, w) for i, w in enumerate(outs)]
        self.report = visr.ParameterOutput('report', self, pml.Integer.staticType, pml.MessageQueueProtocol.staticType,
                                           pml.EmptyParameterConfig()) if report else None
        if abort == 4:
            raise SystemExit(3)
        self.gains = np.array(gains, dtype=np.float32).reshape(sum(outs), sum(ins))
        self.step = step
        self.failing = failing
        self.count = 0
    def __del__(self):
        if hasattr(self, 'counted'):
            sys.verif_alive -= 1
    def process(self):
        n = self.count
        self.count += 1
        if n in self.failing:
            raise RuntimeError('failure in block %d' % n)
        x = np.concatenate([np.zeros((0, self.period()), np.float32)] + [p.data() for p in self.ins])
        y = self.gains @ x + np.float32(self.step * n)
        if self.control is not None:
            y = y * np.float32(self.control.protocol.data().value)
        k = 0
        for p in self.outs:
            p.set(y[k:k + p.width])
            k += p.width
        if self.report is not None:
            self.report.protocol.enqueue(pml.Integer(n))

class Chain(visr.CompositeComponent):
    """the same, as a composite of two mixers"""
    def __init__(self, context, name, parent, ins, outs, gains, step=0.0, control=False, report=False, failing=(), abort=0):
        super(Chain, self).__init__(context, name, parent)
        sys.verif_alive += 1
        self.counted = True
        self.first = Mixer(context, 'First', self, ins, [sum(ins)], np.eye(sum(ins)))
        self.ins = [visr.AudioInputFloat('in%d' % i, self, w) for i, w in enumerate(ins)]
        self.second = Mixer(context, 'Second', self, [sum(ins)], outs, gains, step, control, report, failing, abort)
        for i, p in enumerate(self.ins):
            self.audioConnection(p, self.first.ins[i])
        self.audioConnection(self.first.outs[0], self.second.ins[0])
        self.outs = []
        for i, w in enumerate(outs):
            self.outs.append(visr.AudioOutputFloat('out%d' % i, self, w))
            self.audioConnection(self.second.outs[i], self.outs[i])
        if control:
            self.control = visr.ParameterInput('control', self, pml.Double.staticType, pml.DoubleBufferingProtocol.staticType,
                                               pml.EmptyParameterConfig())
            self.parameterConnection(self.control, self.second.control)
        if report:
            self.report = visr.ParameterOutput('report', self, pml.Integer.staticType, pml.MessageQueueProtocol.staticType,
                                               pml.EmptyParameterConfig())
            self.parameterConnection(self.second.report, self.report)
    def __del__(self):
        if hasattr(self, 'counted'):
            sys.verif_alive -= 1

class Plain(object):
    """not a component"""
    def __init__(self, context, name, parent, *args, **kwargs):
        pass

def nothing(context, name, parent, *args, **kwargs):
    return None

number = 3
)py";

// ---- interpreter state kept the same from case to case -----------------------------
struct Interpreter
{
  Interpreter()
  {
    pythonsupport::InitialisationGuard::initialise();
    py::gil_scoped_acquire g;
    run("import sys, gc\nsys.verif_path = list(sys.path)\nsys.verif_modules = set(sys.modules)\nsys.verif_alive = 0\n");
  }
  ~Interpreter()
  {
    py::gil_scoped_acquire g;
    run("import sys\nsys.path[:] = sys.verif_path\nfor m in [m for m in sys.modules if m.startswith('vm')]:\n    del sys.modules[m]\n"
        "sys.path_importer_cache.clear()\n");
  }
  static void run(char const* t)
  {
    py::dict scope;
    scope["__builtins__"] = py::module::import("builtins");
    py::exec(t, scope, scope);
  }
  static int alive()
  {
    py::gil_scoped_acquire g;
    run("import gc\ngc.collect()\n");
    return py::module::import("sys").attr("verif_alive").cast<int>();
  }
  static std::vector<std::string> path()
  {
    py::gil_scoped_acquire g;
    return py::module::import("sys").attr("path").cast<std::vector<std::string>>();
  }
};

// ---- modules --------------------------------------------------------------------------
unsigned counter = 0;
std::string unique(char const* what) { return std::string("vm") + what + std::to_string(getpid()) + "_" + std::to_string(counter++); }

std::string anyDir(pbt::Case& c, Dir& d)
{
  return d.sub(c.pick<std::string>({"dir", "a dir", " lead", "t\xc3\xa4st", "semi;colon", "dot.dir"}) + std::to_string(d.dirs.size()));
}
std::string joinPaths(pbt::Case& c, std::vector<std::string> const& v)
{
  std::string r = c.chance(10) ? "," : c.chance(10) ? " " : "";
  for (std::size_t i = 0; i < v.size(); ++i) r += (i ? c.pick<std::string>({",", ", ", " , ", ",,"}) : "") + v[i];
  return r + (c.chance(15) ? c.pick<std::string>({",", " ", ", "}) : "");
}
// a module with the classes; returns how it is named
struct Located
{
  std::string module;  // to be imported
  std::string prefix;  // namespaces in front of the class name
  std::string root;    // directory that has to be on the search path
  std::string dependency; // directory of a module it imports, or empty
};
Located writeModule(pbt::Case& c, Dir& d, std::string const& extra = "", bool broken = false)
{
  Located l;
  std::string text = classText;
  l.root = anyDir(c, d);
  std::string const name = unique("mod");
  std::string rel = l.root.substr(d.path.size() + 1) + "/";
  if (c.chance(30))
  {
    std::string const dep = unique("dep");
    bool const same = c.flag();
    l.dependency = same ? l.root : anyDir(c, d);
    d.file(l.dependency.substr(d.path.size() + 1) + "/" + dep + ".py", "value = 1\n");
    text = "import " + dep + "\n" + text;
  }
  text += extra;
  if (broken) text += "def (:\n";
  bool const nested = !broken && c.chance(25);
  if (nested)
  {
    text += "class Outer:\n    class Inner:\n        pass\n";
    for (char const* n : {"Mixer", "Chain", "Plain", "nothing", "number"}) text += std::string("Outer.Inner.") + n + " = " + n + "\n";
    l.prefix = "Outer.Inner.";
  }
  switch (c.draw(4))
  {
  case 0:
    d.file(rel + name + ".py", text);
    l.module = name;
    break;
  case 1: // package
    d.sub(rel + name);
    d.file(rel + name + "/__init__.py", text);
    l.module = name;
    break;
  case 2: // package, classes in a submodule that the package imports
    d.sub(rel + name);
    d.file(rel + name + "/__init__.py", "from . import inner\n");
    d.file(rel + name + "/inner.py", text);
    l.module = name;
    l.prefix = "inner." + l.prefix;
    break;
  default: // submodule named in the import
    d.sub(rel + name);
    d.sub(rel + name + "/level1");
    d.file(rel + name + "/__init__.py", "");
    d.file(rel + name + "/level1/__init__.py", "");
    d.file(rel + name + "/level1/deep.py", text);
    l.module = name + ".level1.deep";
  }
  return l;
}
std::vector<std::string> searchDirs(pbt::Case& c, Dir& d, Located const& l)
{
  std::vector<std::string> v(1, l.root);
  if (!l.dependency.empty() && l.dependency != l.root) v.insert(v.begin() + (std::ptrdiff_t)c.size(0, 1), l.dependency);
  if (c.chance(25)) v.insert(v.begin() + (std::ptrdiff_t)c.size(0, v.size()), anyDir(c, d));
  return v;
}

// ---- components --------------------------------------------------------------------------
struct Model
{
  std::vector<std::size_t> ins, outs;
  std::vector<std::vector<float>> gains; // outputs x inputs
  float step = 0;
  bool control = false, report = false, composite = false, compiled = false;
  std::vector<std::size_t> failing;
  std::size_t count = 0;
  double controlValue = 1;
  std::size_t in() const { return std::accumulate(ins.begin(), ins.end(), (std::size_t)0); }
  std::size_t out() const { return std::accumulate(outs.begin(), outs.end(), (std::size_t)0); }
  bool fails(std::size_t n) const { return std::find(failing.begin(), failing.end(), n) != failing.end(); }
  vflow::Audio apply(vflow::Audio const& x, std::size_t period)
  {
    vflow::Audio y(out(), std::vector<float>(period));
    for (std::size_t o = 0; o < out(); ++o)
      for (std::size_t k = 0; k < period; ++k)
      {
        double s = (double)step * (double)count;
        for (std::size_t i = 0; i < in(); ++i) s += (double)gains[o][i] * (double)x[i][k];
        y[o][k] = (float)(s * (control ? controlValue : 1));
      }
    ++count;
    return y;
  }
};
Model anyModel(pbt::Case& c, std::vector<std::size_t> const* ins, bool params, bool failures)
{
  Model m;
  m.compiled = c.chance(12);
  m.composite = !m.compiled && c.chance(40);
  if (m.compiled)
  {
    if (ins) m.ins = *ins;
    else m.ins.assign(c.size(1, 3), c.size(1, 4));
    for (auto w : m.ins) if (w != m.ins[0]) m.compiled = false;
    if (m.ins.empty() || m.ins[0] == 0) m.compiled = false;
  }
  if (m.compiled)
  {
    m.outs = {m.ins[0]};
    m.gains.assign(m.ins[0], std::vector<float>(m.in(), 0));
    for (std::size_t o = 0; o < m.ins[0]; ++o) for (std::size_t i = 0; i < m.ins.size(); ++i) m.gains[o][i * m.ins[0] + o] = 1;
    return m;
  }
  if (ins) m.ins = *ins;
  else for (std::size_t i = c.size(m.composite ? 1 : 0, 3); i > 0; --i) m.ins.push_back(c.size(m.composite ? 1 : 0, 3));
  if (m.composite && m.in() == 0) m.composite = false;
  for (std::size_t i = c.size(1, 2); i > 0; --i) m.outs.push_back(c.size(1, 3));
  m.gains.assign(m.out(), std::vector<float>(m.in()));
  for (auto& r : m.gains) for (auto& g : r) g = (float)c.range(-8, 8) / 4;
  if (c.flag()) m.step = (float)c.range(-4, 4) / 4;
  if (params) { m.control = c.chance(35); m.report = c.chance(35); }
  if (failures && c.chance(20)) for (std::size_t i = 0; i < 4; ++i) if (c.chance(35)) m.failing.push_back(i);
  return m;
}
template <typename T> std::string pyList(std::vector<T> const& v, char const* open = "[", char const* close = "]")
{
  std::ostringstream s;
  s << open;
  for (std::size_t i = 0; i < v.size(); ++i) s << (i ? ", " : "") << v[i];
  if (*open == '(' && v.size() == 1) s << ",";
  s << close;
  return s.str();
}
struct Args { std::string positional, keywords; };
Args arguments(pbt::Case& c, Model const& m)
{
  std::vector<std::pair<std::string, std::string>> a;
  std::size_t mandatory;
  if (m.compiled)
  {
    a = {{"width", std::to_string(m.ins[0])}, {"numInputs", std::to_string(m.ins.size())}};
    mandatory = 2;
  }
  else
  {
    std::vector<std::string> rows;
    for (auto const& r : m.gains) rows.push_back(pyList(r));
    std::ostringstream st;
    st << m.step;
    a = {{"ins", pyList(m.ins)}, {"outs", c.flag() ? pyList(m.outs) : pyList(m.outs, "(", ")")}, {"gains", pyList(rows)}, {"step", st.str()}, {"control", m.control ? "True" : "False"}, {"report", m.report ? "True" : "False"}, {"failing", pyList(m.failing)}};
    mandatory = 3;
  }
  Args r;
  std::size_t const np = c.size(0, mandatory + (c.flag() ? a.size() - mandatory : 0));
  std::vector<std::string> pos;
  for (std::size_t i = 0; i < np; ++i) pos.push_back(a[i].second);
  auto join = [](std::vector<std::string> const& v, std::string const& sep) { std::string s; for (auto const& x : v) s += (s.empty() ? "" : sep) + x; return s; };
  if (np)
    switch (c.draw(4))
    {
    case 0: r.positional = join(pos, ",") + (np == 1 || c.flag() ? "," : ""); break;
    case 1: r.positional = "(" + join(pos, ", ") + (np == 1 || c.flag() ? ",)" : ")"); break;
    case 2: r.positional = "tuple([" + join(pos, ", ") + "])"; break;
    default: r.positional = join(pos, " , ") + (np == 1 ? " ," : "");
    }
  else if (c.chance(20)) r.positional = "()";
  std::vector<std::string> kw;
  bool const dict = c.chance(30);
  std::vector<std::size_t> idx;
  for (std::size_t i = np; i < a.size(); ++i)
  {
    bool const isDefault = !m.compiled && i >= mandatory && (a[i].second == "0" || a[i].second == "False" || a[i].second == "[]");
    if (isDefault && c.flag()) continue;
    idx.push_back(i);
  }
  for (std::size_t i = idx.size(); i > 1; --i) std::swap(idx[i - 1], idx[c.size(0, i - 1)]);
  for (std::size_t i : idx) kw.push_back(dict ? a[i].first + "=" + a[i].second : (c.flag() ? "'" + a[i].first + "': " : "\"" + a[i].first + "\":") + a[i].second);
  if (!kw.empty()) r.keywords = dict ? "dict(" + join(kw, ", ") + ")" : "{ " + join(kw, ", ") + " }";
  else if (c.chance(20)) r.keywords = "{}";
  return r;
}
std::string className(pbt::Case& c, Located const& l, std::string const& cls)
{
  std::string r;
  for (char x : l.prefix + cls)
    if (x == '.' && c.chance(15)) r += c.pick<std::string>({" .", ". ", " . "});
    else r += x;
  return r;
}

struct Component1
{
  Model m;
  std::string name, module, cls, path;
  Args args;
  std::unique_ptr<Wrapper> make(SignalFlowContext const& ctx, CompositeComponent* parent) const
  {
    return std::unique_ptr<Wrapper>(new Wrapper(ctx, name.c_str(), parent, module.c_str(), cls.c_str(), args.positional.c_str(), args.keywords.c_str(), path.c_str()));
  }
  std::string show() const { return "wrapper " + name + ": module [" + module + "] class [" + cls + "] arguments [" + args.positional + "] [" + args.keywords + "] path [" + path + "]\n"; }
};
Component1 anyComponent(pbt::Case& c, Dir& d, Located const& l, std::size_t i, std::vector<std::size_t> const* ins, bool params, bool failures)
{
  Component1 r;
  r.m = anyModel(c, ins, params, failures);
  r.name = "C" + std::to_string(i);
  r.args = arguments(c, r.m);
  if (r.m.compiled)
  {
    r.module = "rcl";
    r.cls = "Add";
    r.path = c.flag() ? "" : joinPaths(c, {l.root});
  }
  else
  {
    r.module = l.module;
    r.cls = className(c, l, r.m.composite ? "Chain" : "Mixer");
    r.path = joinPaths(c, searchDirs(c, d, l));
  }
  return r;
}
std::string portName(Model const& m, bool input, std::size_t i) { return input ? "in" + std::to_string(i) : m.compiled ? "out" : "out" + std::to_string(i); }

// a C++ composite with a chain of wrapped components
struct Host : CompositeComponent
{
  std::vector<std::unique_ptr<AudioInput>> ins;
  std::vector<std::unique_ptr<AudioOutput>> outs;
  std::vector<std::unique_ptr<ParameterInput<pml::DoubleBufferingProtocol, Control>>> controls;
  std::vector<std::unique_ptr<ParameterOutput<pml::MessageQueueProtocol, Report>>> reports;
  std::vector<std::unique_ptr<Wrapper>> children;
  explicit Host(SignalFlowContext const& ctx) : CompositeComponent(ctx, "Host", nullptr) {}
  void build(SignalFlowContext const& ctx, std::vector<Component1> const& list, std::function<void()> const& before)
  {
    for (std::size_t i = 0; i < list.size(); ++i)
    {
      if (i == list.size() - 1) before();
      children.push_back(list[i].make(ctx, this));
    }
    Model const &a = list.front().m, &b = list.back().m;
    for (std::size_t i = 0; i < a.ins.size(); ++i)
    {
      ins.emplace_back(new AudioInput(("hostIn" + std::to_string(i)).c_str(), *this, a.ins[i]));
      audioConnection(*ins.back(), children.front()->audioPort(portName(a, true, i)));
    }
    for (std::size_t k = 1; k < list.size(); ++k)
      for (std::size_t i = 0; i < list[k].m.ins.size(); ++i)
        audioConnection(children[k - 1]->audioPort(portName(list[k - 1].m, false, i)), children[k]->audioPort(portName(list[k].m, true, i)));
    for (std::size_t i = 0; i < b.outs.size(); ++i)
    {
      outs.emplace_back(new AudioOutput(("hostOut" + std::to_string(i)).c_str(), *this, b.outs[i]));
      audioConnection(children.back()->audioPort(portName(b, false, i)), *outs.back());
    }
    for (std::size_t k = 0; k < list.size(); ++k)
    {
      if (list[k].m.control)
      {
        controls.emplace_back(new ParameterInput<pml::DoubleBufferingProtocol, Control>(("control" + std::to_string(k)).c_str(), *this, pml::EmptyParameterConfig()));
        parameterConnection(*controls.back(), children[k]->parameterPort("control"));
      }
      if (list[k].m.report)
      {
        reports.emplace_back(new ParameterOutput<pml::MessageQueueProtocol, Report>(("report" + std::to_string(k)).c_str(), *this, pml::EmptyParameterConfig()));
        parameterConnection(children[k]->parameterPort("report"), *reports.back());
      }
    }
  }
};

struct Instance // a running flow and its model
{
  std::vector<Component1> list;
  bool direct = false;
  std::unique_ptr<Component> top;
  std::unique_ptr<vflow::Rig> rig;
  std::size_t period = 0;
  void create(SignalFlowContext const& ctx, std::function<void(CompositeComponent&)> const& before)
  {
    if (direct) top = list[0].make(ctx, nullptr);
    else
    {
      std::unique_ptr<Host> h(new Host(ctx));
      h->build(ctx, list, [&] { before(*h); });
      top = std::move(h);
    }
    rig.reset(new vflow::Rig(*top));
    period = rig->flow->period();
    PBT_CHECK(rig->flow->numberOfCaptureChannels() == list.front().m.in() && rig->flow->numberOfPlaybackChannels() == list.back().m.out(),
              "the flow has " << rig->flow->numberOfCaptureChannels() << " inputs and " << rig->flow->numberOfPlaybackChannels() << " outputs instead of " << list.front().m.in() << " and " << list.back().m.out());
  }
  std::string port(char const* n, std::size_t k) const { return direct ? n : n + std::to_string(k); }
  void block(pbt::Rng& rng)
  {
    for (std::size_t k = 0; k < list.size(); ++k)
      if (list[k].m.control && (list[k].m.count == 0 || rng.below(3) == 0))
      {
        list[k].m.controlValue = (double)(int)rng.below(9) / 2 - 2;
        auto& p = rig->dbl(port("control", k).c_str());
        static_cast<Control&>(p.data()) = list[k].m.controlValue;
        p.swapBuffers(false);
      }
    vflow::Audio x(list.front().m.in(), std::vector<float>(period)), y = x;
    for (auto& v : x) for (auto& s : v) s = ((float)rng.below(17) - 8) / 8;
    y = x;
    bool fails = false;
    std::vector<std::pair<std::size_t, std::size_t>> reported;
    for (std::size_t k = 0; k < list.size() && !fails; ++k)
    {
      Model& m = list[k].m;
      std::size_t const n = m.count;
      if (m.fails(n)) { ++m.count; fails = true; break; }
      y = m.apply(y, period);
      if (m.report) reported.emplace_back(k, n);
    }
    if (fails) pbt::mustThrow([&] { rig->process(x); }, "processing a block in which the Python code fails");
    else
    {
      vflow::Audio r;
      pbt::mustNotThrow([&] { r = rig->process(x); }, "processing");
      for (std::size_t o = 0; o < y.size(); ++o)
        for (std::size_t k = 0; k < period; ++k) PBT_CHECK(r[o][k] == y[o][k], "block " << list.back().m.count - 1 << " output " << o << " sample " << k << ": " << r[o][k] << " instead of " << y[o][k]);
    }
    for (auto const& e : reported)
    {
      auto& q = rig->queueOut(port("report", e.first).c_str());
      PBT_CHECK(!q.empty(), "no report of block " << e.second);
      int const v = static_cast<Report const&>(q.front()).value();
      PBT_CHECK(v == (int)e.second, "the report of block " << e.second << " is " << v);
      q.pop();
    }
    for (std::size_t k = 0; k < list.size(); ++k)
      if (list[k].m.report) PBT_CHECK(rig->queueOut(port("report", k).c_str()).empty(), "more reports than blocks");
  }
};

// run in a thread of its own
template <typename F> std::thread started(F f, std::string& failure)
{
  return std::thread([f, &failure] {
    try { f(); }
    catch (pbt::Failure const& x) { failure = x.msg; }
    catch (std::exception const& x) { failure = std::string("unexpected exception: ") + x.what(); }
  });
}
template <typename F> void maybeThread(bool thread, F f)
{
  if (!thread) { f(); return; }
  std::string failure;
  started(f, failure).join();
  if (!failure.empty()) pbt::fail(failure);
}

void wrapper(pbt::Case& c)
{
  Dir d;
  Interpreter interpreter;
  std::size_t const period = c.pick<std::size_t>({4, 8, 1, 32});
  SignalFlowContext const ctx(period, 48000);
  Located const l = writeModule(c, d);
  std::size_t const n = c.weighted({60, 40}) + 1; // flows
  std::vector<Instance> inst(n);
  for (auto& i : inst)
  {
    i.direct = c.chance(35);
    std::size_t const k = i.direct ? 1 : c.size(1, 3);
    for (std::size_t j = 0; j < k; ++j) i.list.push_back(anyComponent(c, d, l, j, j ? &i.list.back().m.outs : nullptr, true, true));
    for (auto const& x : i.list) c.note() << x.show();
  }
  bool const th = c.chance(30), concurrently = n > 1 && c.flag(), destroyElsewhere = c.chance(20);
  std::size_t const blocks = c.size(1, 4);
  uint64_t const seed = c.seed();
  c.note() << (concurrently ? "flows run concurrently\n" : "") << (th ? "created in another thread\n" : "");
  c.flushNote();
  Quiet q;
  maybeThread(th, [&] { for (auto& i : inst) pbt::mustNotThrow([&] { i.create(ctx, [](CompositeComponent&) {}); }, "creating the flow"); });
  auto work = [&](std::size_t i) { pbt::Rng r(seed + i); for (std::size_t b = 0; b < blocks; ++b) inst[i].block(r); };
  if (concurrently)
  {
    std::string f[2];
    std::thread a = started([&] { work(0); }, f[0]), b = started([&] { work(1); }, f[1]);
    a.join();
    b.join();
    for (auto const& x : f) if (!x.empty()) pbt::fail(x);
  }
  else
    for (std::size_t i = 0; i < n; ++i) maybeThread(c.flag(), [&] { work(i); });
  maybeThread(destroyElsewhere, [&] {
    for (auto& i : inst) { i.rig.reset(); i.top.reset(); }
  });
  int const left = Interpreter::alive();
  PBT_CHECK(left == 0, left << " Python components are alive after their wrappers have been destroyed");
  bool many = false, fails = false;
  for (auto const& i : inst) { many = many || i.list.size() > 1; for (auto const& x : i.list) { fails = fails || !x.m.failing.empty(); c.label(x.m.compiled ? "compiled component" : x.m.composite ? "composite" : "atomic"); } }
  if (fails) c.label("failing blocks");
  if (many || n > 1) c.nontrivial();
}

// turns the description of a component into one that cannot be created
std::string spoil(pbt::Case& c, Dir& d, Located& l, Component1& x)
{
  bool const viaArgs = !x.m.compiled;
  for (;;)
    switch (c.draw(17))
    {
    case 0: x.module = unique("nosuch"); return "missing module";
    case 1: x.module += ".nosuch"; return "missing submodule";
    case 2: x.cls = "NoSuch"; return "missing class";
    case 3: x.cls = "nosuch." + x.cls; return "missing namespace";
    case 4: x.cls = ""; return "no class name";
    case 5: if (!viaArgs) break; x.cls = l.prefix + "Plain"; return "class that is not a component";
    case 6: if (!viaArgs) break; x.cls = l.prefix + "nothing"; return "function without a result";
    case 7: if (!viaArgs) break; x.cls = l.prefix + "number"; return "not callable";
    case 8: x.args = Args{c.pick<std::string>({"3,,", "(1,", "1 2", "nosuch,", "1/0,", "lambda"}), ""}; return "positional arguments that are no expression";
    case 9: x.args = Args{c.pick<std::string>({"3", "[1]x"}), ""}; return "positional arguments that are no tuple";
    case 10: x.args.keywords = c.pick<std::string>({"[1]", "3", "'a'", "{'a':}", "a=3"}); return "keyword arguments that are no dictionary";
    case 11: x.args = Args{"", ""}; return "missing arguments";
    case 12: x.args = Args{x.args.positional, "{ 'nosuch': 1 }"}; return "unknown keyword";
    case 13: x.path += (x.path.empty() ? "" : ",") + d.path + "/nosuchdir"; return "missing search directory";
    case 14:
    {
      if (!viaArgs) break;
      Model m = x.m;
      m.failing.clear();
      x.args = Args{"", ""};
      std::vector<std::string> rows;
      for (auto const& r : m.gains) rows.push_back(pyList(r));
      int const k = (int)c.range(1, 4);
      x.args.keywords = "{'ins': " + pyList(m.ins) + ", 'outs': " + pyList(m.outs) + ", 'gains': " + pyList(rows) + ", 'abort': " + std::to_string(k) + "}";
      return k == 4 ? "constructor that asks to exit" : k == 2 ? "base class not initialised" : "constructor that raises an exception";
    }
    case 15:
    {
      if (!viaArgs) break;
      Located const o = writeModule(c, d, "", true);
      x.module = o.module;
      x.path = joinPaths(c, searchDirs(c, d, o));
      return "syntax error";
    }
    default:
    {
      if (!viaArgs) break;
      Located const o = writeModule(c, d, c.pick<std::string>({"raise RuntimeError('not here')\n", "import nosuchmodule\n", "1/0\n"}));
      x.module = o.module;
      x.path = joinPaths(c, searchDirs(c, d, o));
      return "exception on import";
    }
    }
}
void faults(pbt::Case& c)
{
  Dir d;
  Interpreter interpreter;
  SignalFlowContext const ctx(c.pick<std::size_t>({4, 16}), 48000);
  Located l = writeModule(c, d);
  Instance i;
  i.direct = c.chance(35);
  std::size_t const k = i.direct ? 1 : c.size(1, 3);
  for (std::size_t j = 0; j < k; ++j) i.list.push_back(anyComponent(c, d, l, j, j ? &i.list.back().m.outs : nullptr, true, false));
  std::vector<std::pair<std::string, Component1>> bad;
  for (std::size_t f = c.size(1, 3); f > 0; --f)
  {
    Component1 x = i.list.back();
    std::string const what = spoil(c, d, l, x);
    bad.emplace_back(what, x);
    c.note() << what << ": " << x.show();
    c.label(what);
  }
  for (auto const& x : i.list) c.note() << x.show();
  c.flushNote();
  Quiet q;
  uint64_t const seed = c.seed();
  bool const th = c.chance(30);
  auto attempt = [&](CompositeComponent* parent) {
    for (auto const& b : bad)
    {
      std::string m;
      int const r = pbt::outcome([&] { b.second.make(ctx, parent); }, &m);
      PBT_CHECK(r == 1, (r ? "an exception of an unusual type with: " : "a wrapper has been created with: ") << b.first);
      PBT_CHECK(m.find(b.second.name) != std::string::npos, "the message does not tell the component: " << m);
    }
  };
  maybeThread(th, [&] {
    pbt::mustNotThrow([&] {
      if (i.direct) attempt(nullptr);
      i.create(ctx, [&](CompositeComponent& parent) { attempt(&parent); }); }, "creating the flow after failures");
    pbt::Rng r(seed);
    for (int b = 0; b < 2; ++b) i.block(r);
  });
  i.rig.reset();
  i.top.reset();
  int const left = Interpreter::alive();
  PBT_CHECK(left == 0, left << " Python components are alive after their wrappers have been destroyed");
  if (bad.size() > 1 || k > 1) c.nontrivial();
}

// ---- the module loader ---------------------------------------------------------------------
void loader(pbt::Case& c)
{
  Dir d;
  Interpreter interpreter;
  std::vector<std::string> const before = Interpreter::path();
  std::string const name = unique("lib"), dep = unique("libdep");
  std::string const a = anyDir(c, d), b = anyDir(c, d), e = anyDir(c, d), nowhere = anyDir(c, d);
  int const api = (int)c.draw(4); // vectors, vectors + system path, text, text + system path
  bool const separate = api % 2;
  int const where = (int)c.weighted({50, separate ? 40u : 0u, 10}), depWhere = (int)c.weighted({40, 50, 10}); // module path, system path, nowhere
  bool const hasDep = c.flag(), broken = c.chance(8), missingDir = api >= 2 && c.chance(10), submodule = c.flag();
  auto rel = [&](std::string const& p) { return p.substr(d.path.size() + 1) + "/"; };
  int const value = (int)c.range(0, 1000);
  std::string const text = (hasDep ? "import " + dep + "\n" : "") + std::string("value = ") + std::to_string(value) + "\n" + (broken ? "x = (\n" : "");
  std::string const at = where == 0 ? a : where == 1 ? b : nowhere;
  if (submodule)
  {
    d.sub(rel(at) + name);
    d.file(rel(at) + name + "/__init__.py", "");
    d.file(rel(at) + name + "/part.py", text);
  }
  else d.file(rel(at) + name + ".py", text);
  // dependencies: next to the module, or in a directory of the system path
  std::string const depAt = depWhere == 2 ? nowhere : separate ? b : depWhere == 0 ? a : e;
  if (hasDep) d.file(rel(depAt) + dep + ".py", "\n");
  std::vector<std::string> modulePath, system;
  if (where != 1 || c.flag()) modulePath.push_back(a);
  if (!separate && c.flag()) modulePath.clear();
  if (!separate && where == 0) modulePath.assign(1, a);
  if (!separate && !modulePath.empty()) modulePath.insert(modulePath.begin() + (std::ptrdiff_t)c.size(0, 1), e);
  if (separate) system.push_back(b);
  if (separate && c.flag()) system.insert(system.begin() + (std::ptrdiff_t)c.size(0, 1), e);
  if (missingDir) (separate && c.flag() ? system : modulePath).push_back(d.path + "/nosuchdir");
  auto has = [](std::vector<std::string> const& v, std::string const& x) { return std::find(v.begin(), v.end(), x) != v.end(); };
  bool const ok = (has(modulePath, at) || has(system, at)) && (!hasDep || has(separate ? system : modulePath, depAt)) && !broken && !missingDir;
  std::string const full = submodule ? name + ".part" : name;
  std::string const mt = joinPaths(c, modulePath), st = joinPaths(c, system);
  c.note() << "module " << full << " in [" << at << "]" << (hasDep ? " dependency in [" + depAt + "]" : "") << "\nmodule path [" << mt << "]\nsystem path [" << st << "]\noverload " << api << (broken ? " broken" : "") << "\n";
  c.flushNote();
  std::string m;
  int kind = 0; // 1 runtime_error, 2 invalid_argument, 3 others
  int got = -1;
  maybeThread(c.chance(30), [&] {
    pythonsupport::GilEnsureGuard g;
    py::object globals = py::module::import("__main__").attr("__dict__");
    try
    {
      py::object const mod = api == 0 ? pythonsupport::loadModule(full, modulePath, globals) : api == 1 ? pythonsupport::loadModule(full, modulePath, system, globals) : api == 2 ? pythonsupport::loadModule(full, mt, globals) : pythonsupport::loadModule(full, mt, st, globals);
      got = mod.attr("value").cast<int>();
    }
    catch (std::runtime_error const& x) { kind = 1; m = x.what(); }
    catch (std::invalid_argument const& x) { kind = 2; m = x.what(); }
    catch (std::exception const& x) { kind = 3; m = x.what(); }
  });
  if (missingDir)
  {
    PBT_CHECK(kind == 2, "missing search directory: " << (kind ? "wrong type of exception: " + m : std::string("no error")));
    PBT_CHECK(m.find(d.path + "/nosuchdir") != std::string::npos, "the message does not tell the directory: " << m);
    c.label("missing directory");
  }
  else if (!ok)
  {
    PBT_CHECK(kind == 1, "module that cannot be loaded: " << (kind ? "wrong type of exception: " + m : std::string("no error")));
    c.label("cannot be loaded");
  }
  else
  {
    PBT_CHECK(kind == 0, "the module has not been loaded: " << m);
    PBT_CHECK(got == value, "another module has been loaded");
    std::vector<std::string> const after = Interpreter::path();
    PBT_CHECK(after.size() >= before.size() && std::equal(before.begin(), before.end(), after.begin()), "the search path has not been appended to");
    for (auto const& p : separate ? system : modulePath) PBT_CHECK(has(after, p), p << " is not on the system path");
    c.label("loaded");
    if (hasDep || separate) c.nontrivial();
  }
}

// ---- python_runner ----------------------------------------------------------------------------
void runner(pbt::Case& c)
{
  Dir d;
  Interpreter interpreter;
  AppLine a;
  Located l = writeModule(c, d);
  Component1 x = anyComponent(c, d, l, 0, nullptr, false, false);
  bool const errors = c.flag();
  common(c, d, a, c.chance(20) ? std::vector<std::size_t>() : std::vector<std::size_t>{16, 4, 64, 100}, none, none, errors);
  if (errors && a.error.empty() && c.chance(30)) a.error = spoil(c, d, l, x);
  std::string const missing = errors && a.error.empty() && c.chance(12) ? c.pick<std::string>({"module-name", "python-class-name"}) : "";
  if (!missing.empty()) a.error = "no " + missing;
  bool const fullPath = a.error.empty() && !x.m.compiled && l.module.find('.') == std::string::npos && c.chance(25);
  if (fullPath)
  {
    x.module = l.root + "/" + l.module;
    x.path = l.dependency.empty() || l.dependency == l.root ? "" : l.dependency;
  }
  if (missing != "module-name") a.opts.push_back({"module-name", 'm', false, x.module});
  if (missing != "python-class-name") a.opts.push_back({"python-class-name", 'c', false, x.cls});
  bool const named = c.flag();
  if (named) a.opts.push_back({"object-name", 'n', false, x.name});
  if (!x.args.positional.empty()) a.opts.push_back({"positional-arguments", 'a', false, x.args.positional});
  if (!x.args.keywords.empty()) a.opts.push_back({"keyword-arguments", 'k', false, x.args.keywords});
  if (!x.path.empty()) a.opts.push_back({"module-search-path", 'd', false, x.path});
  Line const line = compose(c, d, a.opts);
  c.note() << line.show();
  c.flushNote();
  c.label(a.error.empty() ? fullPath ? "runs, full path" : "runs" : a.error);
  pbt::Rng rng(c.seed());
  std::size_t const blocks = c.size(1, 3);
  Run const r = launch(c, python_runner_main, line, [&](Fake& f) {
    for (std::size_t b = 0; b < blocks; ++b)
    {
      vflow::Audio in(x.m.in(), std::vector<float>(a.period));
      for (auto& v : in) for (auto& s : v) s = ((float)rng.below(17) - 8) / 8;
      vflow::Audio out;
      // the audio interface calls from a thread of its own
      std::string failure;
      started([&] { out = f.process(in); }, failure).join();
      if (!failure.empty()) pbt::fail(failure);
      vflow::Audio const y = x.m.apply(in, a.period);
      for (std::size_t o = 0; o < y.size(); ++o)
        for (std::size_t k = 0; k < a.period; ++k) PBT_CHECK(out[o][k] == y[o][k], "block " << b << " output " << o << " sample " << k << ": " << out[o][k] << " instead of " << y[o][k]);
    }
  });
  verify(r, a, x.m.in(), x.m.out(), true);
  int const left = Interpreter::alive();
  PBT_CHECK(left == 0, left << " Python components are alive after the end of the program");
  if (a.error.empty() && !x.args.keywords.empty() && !x.args.positional.empty()) c.nontrivial();
}
} // namespace

int main(int argc, char** argv)
{
  vflow::initLibs();
  audiointerfaces::AudioInterfaceFactory::registerAudioInterfaceType<FakeA>("Fake");
  pbt::Spec s;
  s.rule = "several wrapped components or flows, several failed attempts, dependencies or separate search paths, or arguments of both kinds";
  s.subs = {{"wrapper", wrapper, 600, 60000}, {"faults", faults, 600, 60000}, {"loader", loader, 1000, 100000}, {"runner", runner, 500, 50000}};
  s.assumptions = {"python_runner runs in the checking process on an audio interface that only exists in the check"};
  return pbt::run(argc, argv, s);
}
