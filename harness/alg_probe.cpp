// An algorithm that does nothing but speak: the reporting macros of the library, issued from a class of ours.
#include "alg.h"
using namespace vh; using namespace gwm;
namespace {
struct Speaker : Algorithm {
    bool isValid() override { return true; }
    void speak(const std::string& how, const std::string& text, int lv)
    {
        if (how == "debug") { GWM_LOG_DEBUG(text); }
        else if (how == "info") { GWM_LOG_INFO(text); }
        else if (how == "warning") { GWM_LOG_WARNNING(text); }
        else if (how == "error") { GWM_LOG_ERROR(text); }
        else if (how == "stage") { GWM_LOG_STAGE(text); }
        else if (how == "manual") debug(text, "f", "g");
        else { GWM_LOGGING(text, (ITelegram::LogLevel)lv); }
    }
    void count(size_t a, size_t b) { GWM_LOG_PROGRESS(a, b); }
    void percent(double p) { GWM_LOG_PROGRESS_PERCENT(p); }
};
struct Probe : Adaptor {
    Speaker a;
    Algorithm& alg() override { return a; }
    void set(const Op&, const Op&, const Data&) override {}
    void call(const std::string& what, const Op& o, const Data&, Results&) override
    {
        if (what == "say") a.speak(o.s("how"), o.s("text"), o.i("lv", 6));
        else if (what == "count") a.count(o.i("a"), o.i("b"));
        else if (what == "percent") a.percent(o.d("p", 0));
    }
};
Register r1("probe", [] { return std::unique_ptr<Adaptor>(new Probe()); });
}
