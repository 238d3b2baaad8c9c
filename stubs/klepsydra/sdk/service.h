#pragma once
#include <memory>
#include <string>
#include <klepsydra/sdk/container.h>
#include <klepsydra/sdk/environment.h>
#include <klepsydra/sdk/service_stats.h>
namespace kpsr {
class Service
{
public:
    Service(Container *container, Environment *environment, const std::string &serviceName, bool = false)
        : serviceStats(serviceName), _environment(environment), _container(container)
    {
        if (_container) _container->attach(this);
    }
    virtual ~Service()
    {
        if (_container) _container->detach(this);
    }
    void startup() { _started = true; start(); }
    void shutdown() { _started = false; stop(); }
    void runOnce() { execute(); }
    ServiceStats serviceStats;
    Environment *_environment;

protected:
    virtual void start() = 0;
    virtual void stop() = 0;
    virtual void execute() = 0;
    bool _started = false;
    Container *_container;
};
} // namespace kpsr
