#pragma once
#include "../ip/UdpSocket.h"
#include "OscReceivedElements.h"
namespace oscpack {
class OscPacketListener : public PacketListener {
public:
  virtual void ProcessBundle(const ReceivedBundle& b, const IpEndpointName& r)
  {
    for (auto i = b.ElementsBegin(); i != b.ElementsEnd(); ++i)
      if (i->IsBundle()) ProcessBundle(ReceivedBundle(*i), r);
      else ProcessMessage(ReceivedMessage(*i), r);
  }
  virtual void ProcessMessage(const ReceivedMessage& m, const IpEndpointName& r) = 0;
  void ProcessPacket(const char* data, int size, const IpEndpointName& r) override
  {
    ReceivedPacket p(data, std::size_t(size));
    if (p.IsBundle()) ProcessBundle(ReceivedBundle(p), r);
    else ProcessMessage(ReceivedMessage(p), r);
  }
};
}
