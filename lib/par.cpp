// Runs several analyses (clang with the clazy plugin) at the same time in one process, as libclang does.
// usage: par PLUGIN THREADS ROUNDS SEED JOBFILE     each line of JOBFILE: source \t plugin-arg,... (\x01 separated) \t flags (\x01 separated)
// Prints for each analysis:  BEGIN job round thread start end status / diagnostics / END
#include <clang/Basic/Diagnostic.h>
#include <clang/Frontend/CompilerInstance.h>
#include <clang/Frontend/CompilerInvocation.h>
#include <clang/Frontend/FrontendActions.h>
#include <clang/Frontend/TextDiagnosticPrinter.h>
#include <clang/Frontend/Utils.h>
#include <llvm/Support/DynamicLibrary.h>
#include <llvm/Support/raw_ostream.h>
#include <atomic>
#include <chrono>
#include <condition_variable>
#include <cstdio>
#include <fstream>
#include <mutex>
#include <random>
#include <sstream>
#include <thread>
#include <vector>

struct Job { std::string src; std::vector<std::string> plugin, flags; };
static std::vector<std::string> split(const std::string &s, char c)
{
    std::vector<std::string> r;
    std::stringstream ss(s);
    for (std::string x; std::getline(ss, x, c);)
        r.push_back(x);
    return r;
}

struct Out { std::string text; bool ok; long a, b; };

static Out analyse(const Job &j)
{
    Out o;
    auto now = [] { return (long)std::chrono::duration_cast<std::chrono::microseconds>(std::chrono::steady_clock::now().time_since_epoch()).count(); };
    o.a = now();
    llvm::raw_string_ostream os(o.text);
    auto opts = llvm::makeIntrusiveRefCnt<clang::DiagnosticOptions>();
    std::vector<std::string> args = {"clang"};
    for (auto &p : j.plugin) {
        args.push_back("-Xclang"); args.push_back("-plugin-arg-clazy"); args.push_back("-Xclang"); args.push_back(p);
    }
    args.push_back("-Xclang"); args.push_back("-add-plugin"); args.push_back("-Xclang"); args.push_back("clazy");
    args.push_back("-fsyntax-only");
    for (auto &f : j.flags)
        args.push_back(f);
    args.push_back(j.src);
    std::vector<const char *> av;
    for (auto &a : args)
        av.push_back(a.c_str());
    auto diags = clang::CompilerInstance::createDiagnostics(*llvm::vfs::getRealFileSystem(), opts.get(), new clang::TextDiagnosticPrinter(os, opts.get()));
    clang::CreateInvocationOptions cio;
    cio.Diags = diags;
    auto inv = clang::createInvocation(av, std::move(cio));
    if (!inv) {
        o.ok = false;
        o.b = now();
        return o;
    }
    clang::CompilerInstance ci;
    ci.setInvocation(std::shared_ptr<clang::CompilerInvocation>(std::move(inv)));
    ci.createDiagnostics(*llvm::vfs::getRealFileSystem(), new clang::TextDiagnosticPrinter(os, &ci.getDiagnosticOpts()));
    clang::SyntaxOnlyAction act;
    o.ok = ci.ExecuteAction(act) && !ci.getDiagnostics().hasErrorOccurred();
    os.flush();
    o.b = now();
    return o;
}

int main(int argc, char **argv)
{
    if (argc < 6)
        return 3;
    std::string err;
    if (llvm::sys::DynamicLibrary::LoadLibraryPermanently(argv[1], &err)) {
        fprintf(stderr, "cannot load: %s\n", err.c_str());
        return 3;
    }
    const int T = atoi(argv[2]), R = atoi(argv[3]), seed = atoi(argv[4]);
    std::vector<Job> jobs;
    std::ifstream f(argv[5]);
    for (std::string l; std::getline(f, l);) {
        auto p = split(l, '\t');
        if (p.size() < 3)
            return 3;
        jobs.push_back({p[0], split(p[1], 1), split(p[2], 1)});
    }
    std::mutex om;
    for (int r = 0; r < R; ++r) {
        std::vector<std::thread> ts;
        std::atomic<int> ready{0};
        std::atomic<bool> go{false};
        for (int t = 0; t < T; ++t)
            ts.emplace_back([&, t] {
                std::mt19937 g(seed * 7919 + r * 131 + t);
                ready++;
                while (!go)
                    std::this_thread::yield();
                std::this_thread::sleep_for(std::chrono::microseconds(g() % 3 ? 0 : g() % 3000));
                const int n = (t + r * T) % jobs.size();
                Out o = analyse(jobs[n]);
                std::lock_guard<std::mutex> l(om);
                printf("BEGIN %d %d %d %ld %ld %d\n%s\nEND\n", n, r, t, o.a, o.b, int(o.ok), o.text.c_str());
                fflush(stdout);
            });
        while (ready < T)
            std::this_thread::yield();
        go = true;
        for (auto &t : ts)
            t.join();
    }
    return 0;
}
