// Stand-in for FairLogger (not installed here). Same API as used by FairMQ; log lines go to the simulator.
#ifndef FAIR_LOGGER_STUB_H
#define FAIR_LOGGER_STUB_H
#include <fstream>
#include <functional>
#include <iomanip>
#include <iostream>
#include <map>
#include <sstream>
#include <stdexcept>
#include <string>
#include <string_view>
#include <array>
#include <chrono>
#include <ctime>

namespace fair {

enum class Severity : int { nolog, trace, debug4, debug3, debug2, debug1, debug, detail, info, state, important, alarm, warn, warning = warn, error, critical, fatal };
enum class Verbosity : int { verylow, low, medium, high, veryhigh, user1, user2, user3, user4 };

struct VerbositySpec
{
    enum class Info : int { __empty__, timestamp_s, timestamp_us, process_name, severity, file, file_line_function, file_line };
    template<typename... Ts>
    static VerbositySpec Make(Ts...) { return {}; }
};

struct LogMetaData { std::time_t timestamp{}; std::chrono::microseconds us{}; std::string_view process_name, file, line, func, severity_name; fair::Severity severity{}; };

class Logger
{
  public:
    explicit Logger(Severity s) : fSev(s) {}
    ~Logger();
    std::ostringstream& Stream() { return fOs; }
    template<typename T>
    Logger& operator<<(const T& t) { fOs << t; return *this; }
    Logger& operator<<(std::ostream& (*m)(std::ostream&)) { fOs << m; return *this; }
    Logger& operator<<(std::ios_base& (*m)(std::ios_base&)) { fOs << m; return *this; }

    static bool Logging(Severity s);
    static void SetConsoleSeverity(Severity) {}
    static void SetConsoleSeverity(const std::string&) {}
    static Severity GetConsoleSeverity() { return Severity::info; }
    static void SetFileSeverity(Severity) {}
    static void SetFileSeverity(const std::string&) {}
    static void SetVerbosity(Verbosity) {}
    static void SetVerbosity(const std::string&) {}
    static Verbosity GetVerbosity() { return Verbosity::low; }
    static void DefineVerbosity(Verbosity, VerbositySpec) {}
    static void SetConsoleColor(bool = true) {}
    static void CycleConsoleSeverityUp() {}
    static void CycleConsoleSeverityDown() {}
    static void CycleVerbosityUp() {}
    static void CycleVerbosityDown() {}
    static void OnFatal(std::function<void()>) {}
    static std::string InitFileSink(Severity, const std::string& f, bool = true) { return f; }
    static std::string InitFileSink(const std::string&, const std::string& f, bool = true) { return f; }
    static void AddCustomSink(const std::string&, const std::string&, std::function<void(const std::string&, const LogMetaData&)>) {}
    static void RemoveCustomSink(const std::string&) {}
    static void SetProcessName(const std::string&) {}
    static std::string SeverityName(Severity) { return ""; }

  private:
    std::ostringstream fOs;
    Severity fSev;
};
} // namespace fair

#define LOG(sev) for (bool fairLOG_once_ = fair::Logger::Logging(fair::Severity::sev); fairLOG_once_; fairLOG_once_ = false) fair::Logger(fair::Severity::sev)
#define LOGV(sev, verb) LOG(sev)
#define LOGP(sev, ...) LOG(sev)
#define LOGF(sev, ...) LOG(sev)
#define LOG_IF(sev, cond) for (bool fairLOG_once_ = (cond); fairLOG_once_; fairLOG_once_ = false) fair::Logger(fair::Severity::sev)
#endif
