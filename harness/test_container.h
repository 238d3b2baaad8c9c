// A container that checks how it is used: what is attached, exactly once, and detached only by who is attached.
#pragma once
#include "hcommon.h"
#include <klepsydra/sdk/container.h>
#include <klepsydra/sdk/service.h>

struct TestContainer : kpsr::Container
{
    std::multiset<const void *> att;
    int ndet = 0;
    void add(const void *p, const char *w)
    {
        ksim::NoPreempt np;
        ksim::AllocPause ap;
        CHECK("container-use", p, "attach(%s) of a null pointer", w);
        att.insert(p);
    }
    void del(const void *p, const char *w)
    {
        ksim::NoPreempt np;
        ksim::AllocPause ap;
        if (!p) return; // CoreContainer does not mind
        auto i = att.find(p);
        CHECK("container-use", i != att.end(), "detach(%s) of something that is not attached", w);
        att.erase(i);
        ndet++;
    }
    void attach(kpsr::Service *s) override { add(s, "service"); }
    void detach(kpsr::Service *s) override { del(s, "service"); }
    void attach(kpsr::FunctionStats *s) override { add(s, "function"); }
    void detach(kpsr::FunctionStats *s) override { del(s, "function"); }
    void attach(kpsr::ServiceStats *s) override { add(s, "service stats"); }
    void attach(kpsr::PublicationStats *s) override { add(s, "publication"); }
    void detach(kpsr::PublicationStats *s) override { del(s, "publication"); }
    void attach(kpsr::SubscriptionStats *s) override { add(s, "subscription"); }
    void detach(kpsr::SubscriptionStats *s) override { del(s, "subscription"); }
    std::string getName() const override { return "test"; }
    kpsr::Environment *getEnvironment() const override { return nullptr; }
};
