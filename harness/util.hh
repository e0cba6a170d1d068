// Running a command-line utility inside the harness process.
#pragma once
#include "common.hh"
#include <fcntl.h>
#include <getopt.h>
#include <iostream>
#include <set>
#include <unistd.h>

/// Run a utility's main (collective); what it prints on this process goes to out
inline int run_util(Ctx& c, int (*m)(int, char**), std::vector<std::string> args, std::string& out)
{
    // options come in any order, each with what follows it
    std::vector<std::vector<std::string>> opts;
    std::vector<std::string> head;
    for (auto& a : args)
        if (a.size() == 2 && a[0] == '-' && isalpha((unsigned char)(a[1]))) opts.push_back({a});
        else (opts.empty() ? head : opts.back()).push_back(a);
    std::set<std::string> once;
    for (auto& o : opts) once.insert(o[0]);
    if (once.size() == opts.size() && opts.size() > 1 && c.flip()) {
        args = head;
        for (auto i : c.permutation(opts.size()))
            for (auto& s : opts[i]) args.push_back(s);
        std::string line;
        for (auto& s : args) line += " " + s;
        c.desc << " run as" << line;
    }
    std::vector<std::vector<char>> keep;
    std::vector<char*> argv;
    for (auto& a : args) keep.emplace_back(a.begin(), a.end());
    for (auto& k : keep) { k.push_back(0); argv.push_back(k.data()); }
    argv.push_back(nullptr);
    std::string cap = c.path("stdout." + std::to_string(c.rank()));
    std::cout.flush(); std::cerr.flush(); fflush(stdout); fflush(stderr);
    int o1 = dup(1), o2 = dup(2), fd = open(cap.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0600);
    dup2(fd, 1);
    // the sanitizers report on standard error, which stays as it is: catch std::cerr above it
    struct Buf : std::streambuf {
        std::string s;
        int overflow(int ch) override { if (ch != EOF) s += char(ch); return ch; }
        std::streamsize xsputn(const char* p, std::streamsize n) override { s.append(p, size_t(n)); return n; }
    } eb;
    int rc;
    {
        struct Restore {
            std::streambuf* old;
            int o1, o2, fd;
            ~Restore()
            {
                std::cout.flush(); fflush(stdout);
                std::cerr.rdbuf(old);
                dup2(o1, 1);
                close(o1); close(o2); close(fd);
            }
        } restore{std::cerr.rdbuf(&eb), o1, o2, fd};
        optind = 0;
        barrier();
        rc = m(int(args.size()), argv.data());
        barrier();
    }
    auto b = ref::slurp(cap);
    out.assign(b.begin(), b.end());
    out += eb.s;
    unlink(cap.c_str());
    return rc;
}
