#pragma once
#include <functional>
#include <memory>
#include <string>
#include <klepsydra/sdk/container.h>
#include <klepsydra/sdk/subscription_stats.h>
namespace kpsr {
template<class T>
class Subscriber
{
public:
    Subscriber(Container *container, const std::string &name, const std::string &type)
        : container(container), name(name), type(type)
    {}
    virtual ~Subscriber() {}
    virtual void registerListenerOnce(const std::function<void(const T &)> listener) = 0;
    virtual void registerListener(const std::string &name, const std::function<void(const T &)> listener) = 0;
    virtual void removeListener(const std::string &name) = 0;
    virtual std::shared_ptr<SubscriptionStats> getSubscriptionStats(const std::string &name) = 0;
    Container *container;
    const std::string name;
    const std::string type;
};
} // namespace kpsr
