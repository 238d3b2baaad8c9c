#pragma once
#include <functional>
#include <klepsydra/sdk/publisher.h>
namespace kpsr {
template<class T, class U>
class EventTransformForwarder
{
public:
    EventTransformForwarder(const std::function<void(const T &, U &)> &transformFunction, Publisher<U> *publisher)
        : forwarderListenerFunction([this](const T &e) { onEventReceived(e); })
        , _transform(transformFunction), _publisher(publisher)
    {}
    void onEventReceived(const T &event)
    {
        _publisher->processAndPublish([&event, this](U &u) { _transform(event, u); });
    }
    std::function<void(const T &)> forwarderListenerFunction;

private:
    std::function<void(const T &, U &)> _transform;
    Publisher<U> *_publisher;
};
} // namespace kpsr
