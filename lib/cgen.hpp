#ifndef VERIF_CGEN_HPP
#define VERIF_CGEN_HPP
/* Common parts of the harnesses which compile generated code. */
#include <cppad/cg/cppadcg.hpp>
#include "pbt.hpp"
#include "prog.hpp"
#include <dlfcn.h>
#include <spawn.h>
extern char** environ;

namespace vf {

using namespace CppAD;
using namespace CppAD::cg;

/** CppAD's error handler throws, so that a rejected request is an exception */
inline void cppadErrorThrow(bool known, int line, const char* file, const char* exp, const char* msg) {
    (void) exp;
    if (known) throw CGException("CppAD error: ", msg);
    throw std::logic_error(std::string("CppAD internal error at ") + file + ":" + std::to_string(line) + ": " + msg);
}
struct ThrowingHandler {
    CppAD::ErrorHandler h;
    ThrowingHandler() : h(cppadErrorThrow) {}
};
static ThrowingHandler throwingHandler;

inline void writeFile(const std::string& path, const std::string& text) {
    FILE* f = fopen(path.c_str(), "w");
    if (!f) throw std::runtime_error("cannot write " + path);
    fwrite(text.data(), 1, text.size(), f);
    fclose(f);
}
inline std::string readFile(const std::string& path) {
    std::ifstream in(path);
    return std::string((std::istreambuf_iterator<char>(in)), std::istreambuf_iterator<char>());
}

/** runs a program; returns its exit status; stdout and stderr go to a file */
inline int run(const std::vector<std::string>& args, const std::string& outFile) {
    std::vector<char*> av;
    for (auto& a : args) av.push_back(const_cast<char*> (a.c_str()));
    av.push_back(nullptr);
    posix_spawn_file_actions_t fa;
    posix_spawn_file_actions_init(&fa);
    posix_spawn_file_actions_addopen(&fa, 1, outFile.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
    posix_spawn_file_actions_adddup2(&fa, 1, 2);
    pid_t pid;
    int rc = posix_spawn(&pid, av[0], &fa, nullptr, av.data(), environ);
    posix_spawn_file_actions_destroy(&fa);
    if (rc != 0) throw std::runtime_error("cannot run " + args[0]);
    int st;
    while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
    return WIFEXITED(st) ? WEXITSTATUS(st) : 128 + WTERMSIG(st);
}

/** compiles C sources into one shared library (fails the case when they do not compile) */
inline std::string compileC(pbt::Case& c, const std::map<std::string, std::string>& sources, const std::string& name,
                            const std::vector<std::string>& flags = {}) {
    std::string lib = c.scratch + "/" + name + ".so";
    std::vector<std::string> args{"/usr/bin/gcc", "-shared", "-fPIC", "-O0", "-w", "-pipe", "-o", lib};
    args.insert(args.end(), flags.begin(), flags.end());
    for (auto& s : sources) {
        std::string p = c.scratch + "/" + s.first;
        writeFile(p, s.second);
        args.push_back(p);
    }
    args.push_back("-lm");
    std::string log = c.scratch + "/" + name + ".log";
    int rc = run(args, log);
    if (rc != 0) {
        std::string t = readFile(log);
        throw pbt::Fail("the generated source does not compile: " + t.substr(0, 600));
    }
    return lib;
}

struct Lib {
    void* h;
    explicit Lib(const std::string& path) {
        h = dlopen(path.c_str(), RTLD_NOW | RTLD_LOCAL);
        if (!h) throw pbt::Fail(std::string("cannot load the compiled library: ") + dlerror());
    }
    Lib(const Lib&) = delete;
    ~Lib() { if (h) dlclose(h); }
    void* sym(const std::string& n) {
        void* p = dlsym(h, n.c_str());
        if (!p) throw pbt::Fail("function " + n + " is missing in the generated library");
        return p;
    }
};

inline bool close(double a, double b, double tol) {
    if (a == b) return true;
    if (std::isnan(a) || std::isnan(b)) return std::isnan(a) && std::isnan(b);
    return std::fabs(a - b) <= tol;
}

}
#endif
