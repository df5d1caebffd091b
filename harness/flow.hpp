// Drives one VISR component (atomic or composite) as a complete signal flow.
#ifndef VERIF_FLOW_HPP
#define VERIF_FLOW_HPP
#include "pbt.hpp"

#include <libefl/initialise_library.hpp>
#include <libpml/double_buffering_protocol.hpp>
#include <libpml/initialise_parameter_library.hpp>
#include <libpml/message_queue_protocol.hpp>
#include <libpml/shared_data_protocol.hpp>
#include <librrl/audio_signal_flow.hpp>
#include <libvisr/component.hpp>
#include <libvisr/signal_flow_context.hpp>

#include <memory>

namespace vflow
{
using Audio = std::vector<std::vector<float>>;

inline void initLibs()
{
  visr::efl::initialiseLibrary("");
  visr::pml::initialiseParameterLibrary();
}

struct Rig
{
  std::unique_ptr<visr::rrl::AudioSignalFlow> flow;
  explicit Rig(visr::Component& c) : flow(new visr::rrl::AudioSignalFlow(c)) {}

  // one period; exactly sized buffers, outputs poisoned beforehand
  Audio process(Audio const& in)
  {
    std::size_t const p = flow->period(), no = flow->numberOfPlaybackChannels();
    if (in.size() != flow->numberOfCaptureChannels()) pbt::fail("harness: wrong number of input channels");
    std::vector<float const*> ip;
    for (auto const& v : in) ip.push_back(v.data());
    Audio out(no, std::vector<float>(p, 1234.5f));
    std::vector<float*> op;
    for (auto& v : out) op.push_back(v.data());
    flow->process(ip.data(), op.data());
    return out;
  }
  template <typename P> P& param(char const* port)
  {
    return static_cast<P&>(dbl(port).data());
  }
  visr::pml::DoubleBufferingProtocol::OutputBase& dbl(char const* port)
  {
    return dynamic_cast<visr::pml::DoubleBufferingProtocol::OutputBase&>(flow->externalParameterReceivePort(port));
  }
  template <typename P> P& shared(char const* port)
  {
    return static_cast<P&>(dynamic_cast<visr::pml::SharedDataProtocol::OutputBase&>(flow->externalParameterReceivePort(port)).data());
  }
  template <typename P> P const& sharedOut(char const* port)
  {
    return static_cast<P const&>(dynamic_cast<visr::pml::SharedDataProtocol::InputBase&>(flow->externalParameterSendPort(port)).data());
  }
  visr::pml::DoubleBufferingProtocol::InputBase& dblOut(char const* port)
  {
    return dynamic_cast<visr::pml::DoubleBufferingProtocol::InputBase&>(flow->externalParameterSendPort(port));
  }
  visr::pml::MessageQueueProtocol::OutputBase& queue(char const* port)
  {
    return dynamic_cast<visr::pml::MessageQueueProtocol::OutputBase&>(flow->externalParameterReceivePort(port));
  }
  template <typename P> void enqueue(char const* port, P const& p) { queue(port).enqueue(std::unique_ptr<visr::ParameterBase>(new P(p))); }
  visr::pml::MessageQueueProtocol::InputBase& queueOut(char const* port)
  {
    return dynamic_cast<visr::pml::MessageQueueProtocol::InputBase&>(flow->externalParameterSendPort(port));
  }
};

inline Audio noise(pbt::Case& c, std::size_t channels, std::size_t n)
{
  pbt::Rng r(c.seed());
  Audio a(channels, std::vector<float>(n));
  for (auto& v : a) for (auto& x : v) x = (float)r.uniform(-1, 1);
  return a;
}
} // namespace vflow
#endif
