#pragma once
#include <string>
#include <klepsydra/sdk/environment.h>
#include <klepsydra/sdk/function_stats.h>
#include <klepsydra/sdk/publication_stats.h>
#include <klepsydra/sdk/service_stats.h>
#include <klepsydra/sdk/subscription_stats.h>
namespace kpsr {
class Service;
class Container
{
public:
    virtual ~Container() {}
    virtual void start() {}
    virtual void stop() {}
    virtual void attach(Service *) {}
    virtual void detach(Service *) {}
    virtual void attach(FunctionStats *) {}
    virtual void detach(FunctionStats *) {}
    virtual void attach(ServiceStats *) {}
    virtual void attach(PublicationStats *) {}
    virtual void detach(PublicationStats *) {}
    virtual void attach(SubscriptionStats *) {}
    virtual void detach(SubscriptionStats *) {}
    virtual std::string getName() const = 0;
    virtual Environment *getEnvironment() const = 0;
};
} // namespace kpsr
