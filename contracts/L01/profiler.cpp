// Contracts for ProfilerBuffer (property L01).
// hvc: std=model
// hvc: flags=-DHVC_STRING_SRC=1
// hvc: assume-streams=std::ofstream is the model of hvc/std/fstream in the proof (every open, write and flush may fail); the native search writes real files, /dev/full included
#include "model.hpp"

#include <fstream>
#include <sstream>
#include <unistd.h>
#include <vector>

#include "helics/core/ProfilerBuffer.cpp"

using namespace helics;

namespace {
/// a buffer holding n arbitrary lines and an arbitrary file name
struct Fx {
    std::uint64_t n;
    std::uint64_t* line;
    std::uint64_t name;
    alignas(ProfilerBuffer) unsigned char mem[sizeof(ProfilerBuffer)];
    ProfilerBuffer& P;
    bool alive{true};
    bool openFails{false}, writeFails{false};
    HVC_NATIVE(std::string path; std::string before;)

    Fx(): P(*new (static_cast<void*>(mem)) ProfilerBuffer())
    {
        n = hvc::size("lines", 1ULL << 40, 6);
        line = static_cast<std::uint64_t*>(hvc_array("line", 8, n, n));
#ifdef HVC_MODEL_STD
        name = hvc::anyTok("file name");
        P.mFileName = hvc::str(name);
        auto* s = P.mBuffers.b;
        P.mBuffers.e = s + n;
        for (std::uint64_t k = 0; k < n; ++k) {
            new (static_cast<void*>(s + k)) std::string(hvc::str(line[k]));
            s[k].src = k + 1;
        }
        hvcio::L.count = static_cast<unsigned char*>(hvc_zeros(1));
#else
        openFails = hvc::any<bool>("open_fails");
        writeFails = !openFails && hvc::any<bool>("write_fails");
        path = "/tmp/hvc_l01_" + std::to_string(getpid()) + ".txt";
        before = hvc::any<bool>("old content") ? "old\n" : "";
        std::ofstream(path, std::ios::trunc) << before;
        P.mFileName = openFails ? "/nonexistent/dir/x" : writeFails ? "/dev/full" : path;
        for (std::uint64_t k = 0; k < n; ++k) {
            line[k] = hvc::narrow<std::uint64_t>(line[k], 3);
            P.mBuffers.push_back(hvc::str(line[k]));
        }
#endif
    }
    ~Fx()
    {
        if (alive) {
            P.mBuffers.clear();
            P.~ProfilerBuffer();
        }
        HVC_NATIVE(unlink(path.c_str());)
    }
    /// the lines held are exactly the recorded ones
    void held(std::uint64_t extra, const char* id)
    {
        hvc::check(P.mBuffers.size() == n + extra, id);
        hvc::forall(0, n, [&](std::uint64_t k) -> bool { return hvc::tok(P.mBuffers[k]) == line[k]; }, id);
    }
    bool openFailed() const
    {
        HVC_MODEL(return hvcio::L.failedOpen;)
        HVC_NATIVE(return openFails;)
    }
    bool anyFailed() const
    {
        HVC_MODEL(return hvcio::L.failedOpen || hvcio::L.failedWrite;)
        HVC_NATIVE(if (writeFails) {
            for (std::uint64_t k = 0; k < n; ++k) {
                if (line[k] != 0) {
                    return true;
                }
            }
        } return openFails;)
    }
    void untouched(const char* id)
    {
        HVC_MODEL(hvc::check(hvcio::L.recordedOnly && !hvcio::L.newline, id);
                  hvc::forall(0, n, [&](std::uint64_t k) -> bool { return hvcio::L.count[k + 1] == 0; }, id);)
        HVC_NATIVE(hvc::check(content() == before, id);)
    }
    HVC_NATIVE(std::string content() {
        std::ifstream f(path);
        std::stringstream ss;
        ss << f.rdbuf();
        return ss.str();
    })
    /// every non-empty line was appended to the named file once, in order, followed by a line end
    void written()
    {
#ifdef HVC_MODEL_STD
        auto& L = hvcio::L;
        hvc::check(L.opens == 0 || (L.name == name && (L.mode & std::ios_base::app) != 0 && (L.mode & std::ios_base::trunc) == 0),
                   "the configured file is appended to");
        hvc::forall(0, n, [&](std::uint64_t k) -> bool { return L.count[k + 1] == (line[k] == 0 ? 0 : 1); },
                    "every non-empty recorded line is written exactly once");
        hvc::check(L.ordered, "lines are written in the order recorded");
        hvc::check(L.recordedOnly && !L.newline, "each line written is one recorded line and its line end, and nothing else");
        hvc::check(!L.buffered && !L.lost, "everything written is flushed so that a write failure is seen");
#else
        std::string want = before;
        for (std::uint64_t k = 0; k < n; ++k) {
            if (line[k] != 0) {
                want += hvc::str(line[k]) + "\n";
            }
        }
        hvc::check(content() == want, "every non-empty recorded line is written exactly once, in order, with a line end");
#endif
    }
};
}  // namespace

// hvc-root: flush {}
HARNESS(flush)
{
    Fx f;
    bool thrown = false;
    try {
        f.P.writeFile();
    }
    catch (const std::ios_base::failure&) {
        thrown = true;
    }
    if (f.openFailed()) {
        hvc_cover("open fails");
        hvc::check(thrown, "a failing open is reported");
        f.held(0, "a flush that cannot open its file keeps every recorded line");
        f.untouched("a flush that cannot open its file writes nothing");
    } else if (f.anyFailed()) {
        hvc_cover("write fails");
        hvc::check(thrown, "a failing write is reported");
        HVC_MODEL(hvc::forall(0, f.n, [&](std::uint64_t k) -> bool { return hvcio::L.count[k + 1] <= 1; },
                              "no line is written twice by a failing flush");)
    } else {
        hvc_cover("flushed");
        hvc::check(!thrown, "a flush that succeeds reports no failure");
        f.written();
        hvc::check(f.P.mBuffers.empty(), "lines written are not kept to be written again");
    }
    HVC_MODEL(hvc::check(f.P.mFileName.tok == f.name, "a flush keeps the file name");)
}
HARNESS(destroy)
{
    Fx f;
    f.alive = false;
    f.P.~ProfilerBuffer();  // an escaping exception would terminate
    if (!f.anyFailed()) {
        hvc_cover("destroyed");
        f.written();
    }
}
HARNESS(add_copy)
{
    Fx f;
    auto t = hvc::anyTok("added");
    std::string s = hvc::str(t);
    const std::string& r = s;
    f.P.addMessage(r);
    f.held(1, "adding a line keeps the lines recorded before");
    hvc::check(f.P.mBuffers.size() == f.n + 1 && hvc::tok(f.P.mBuffers[f.n]) == t, "an added line is recorded last");
    hvc::check(hvc::tok(s) == t, "adding a copy leaves the source");
    f.untouched("adding a line writes nothing");
}
HARNESS(add_move)
{
    Fx f;
    auto t = hvc::anyTok("added");
    f.P.addMessage(hvc::str(t));
    f.held(1, "adding a line keeps the lines recorded before");
    hvc::check(f.P.mBuffers.size() == f.n + 1 && hvc::tok(f.P.mBuffers[f.n]) == t, "an added line is recorded last");
    f.untouched("adding a line writes nothing");
}
HARNESS(set_file)
{
    Fx f;
    bool append = hvc::any<bool>("append");
    bool thrown = false;
#ifdef HVC_MODEL_STD
    auto t = hvc::anyTok("new file");
    std::string name = hvc::str(t);
#else
    const bool none = hvc::any<bool>("new file");
    std::string name = none ? std::string() : f.openFails ? "/nonexistent/dir/x" : f.path;
#endif
    const bool clearing = name.empty();
    try {
        f.P.setOutputFile(name, append);
    }
    catch (const std::ios_base::failure&) {
        thrown = true;
    }
    f.held(0, "choosing a file keeps every recorded line");
    hvc::check(f.P.mFileName == name, "the chosen file name is stored");
    if (clearing || append) {
        hvc_cover("append");
        hvc::check(!thrown, "choosing a file to append to reports no failure");
        f.untouched("choosing a file to append to leaves its content");
        HVC_MODEL(hvc::check(hvcio::L.opens == 0 || (hvcio::L.mode & std::ios_base::app) != 0, "a file to append to is not emptied");)
    } else if (f.openFailed()) {
        hvc_cover("open fails");
        hvc::check(thrown, "a file that cannot be emptied is reported");
    } else {
        hvc_cover("truncate");
        hvc::check(!thrown, "emptying the file succeeds without a failure");
        HVC_MODEL(hvc::check(hvcio::L.opens == 1 && hvcio::L.name == t && (hvcio::L.mode & std::ios_base::app) == 0,
                             "a file chosen without append is emptied");)
        HVC_NATIVE(hvc::check(f.content().empty(), "a file chosen without append is emptied");)
    }
}
