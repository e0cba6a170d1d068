// C31: the library starts and ends MPI when that is left to it, once, and not otherwise.
#include "common.hh"
#include "ExSeisDat/PIOL.h"
#include <dirent.h>
#include <signal.h>
#include <spawn.h>
#include <sys/wait.h>

// ---------------------------------------------------------------- the program under study
// This executable, started again as a program of its own that carries out a list of steps.
// Every start and end of MPI is recorded with who asked for it.
namespace EU = exseis::utils;
namespace {
int g_log   = -1;
bool g_user = false;
void rec(const std::string& s)
{
    std::string l = s + "\n";
    if (g_log >= 0 && write(g_log, l.data(), l.size()) < 0) abort();
}
}  // namespace
extern "C" {
int MPI_Init(int* a, char*** v)
{
    rec(g_user ? "init user" : "init library");
    return PMPI_Init(a, v);
}
int MPI_Init_thread(int* a, char*** v, int want, int* got)
{
    rec(g_user ? "init user" : "init library");
    return PMPI_Init_thread(a, v, want, got);
}
int MPI_Finalize(void)
{
    rec(g_user ? "finalize user" : "finalize library");
    return PMPI_Finalize();
}
}
static float value(int file, size_t t, size_t j) { return float(hash({uint64_t(file), t, j}) % 2000) / 8.f - 100.f; }
/// Write a file together and read it back
static void work(std::shared_ptr<EP::ExSeis> piol, const std::string& name, int file, size_t nt, size_t ns)
{
    auto dec = EU::block_decomposition(nt, piol->getNumRank(), piol->getRank());
    size_t n = dec.local_size, o = dec.global_offset;
    std::vector<float> v(n * ns);
    for (size_t t = 0; t < n; t++) for (size_t j = 0; j < ns; j++) v[t * ns + j] = value(file, o + t, j);
    {
        EP::WriteDirect out(piol, name);
        out.writeNs(ns);
        out.writeNt(nt);
        out.writeInc(0.004);
        out.writeText("C 1 a file of " + std::to_string(file));
        EP::Param prm(n);
        for (size_t t = 0; t < n; t++) EP::param_utils::setPrm(t, PIOL_META_il, EU::Integer(1000 + o + t), &prm);
        out.writeTrace(o, n, v.data(), &prm);
    }
    piol->barrier();
    {
        EP::ReadDirect in(piol, name);
        if (in.readNt() != nt || in.readNs() != ns) rec("wrong sizes " + std::to_string(in.readNt()) + " " + std::to_string(in.readNs()));
        EP::Param prm(n);
        std::vector<float> w(n * ns);
        in.readTrace(o, n, w.data(), &prm);
        if (w != v) rec("wrong samples");
        for (size_t t = 0; t < n; t++) if (EP::param_utils::getPrm<EU::Integer>(t, PIOL_META_il, &prm) != EU::Integer(1000 + o + t)) rec("wrong header");
    }
    if (piol->max(piol->getRank()) + 1 != piol->getNumRank()) rec("wrong collective answer");
    piol->barrier();
}
static int child(int argc, char** argv)
{
    std::string dir = argv[2], steps = argv[3];
    size_t nt = strtoull(argv[4], 0, 10), ns = strtoull(argv[5], 0, 10);
    alarm(120);
    g_log = open((dir + "log." + std::to_string(getpid())).c_str(), O_WRONLY | O_CREAT | O_APPEND, 0600);
    if (g_log < 0) return 9;
    (void)argc;
    std::vector<std::shared_ptr<EP::ExSeis>> held;
    std::vector<PIOL_ExSeis*> cheld;
    int file = 0;
    for (char s : steps) {
        int got;
        switch (s) {
            case 'i': g_user = true; MPI_Init(nullptr, nullptr); g_user = false; break;
            case 't': g_user = true; MPI_Init_thread(nullptr, nullptr, MPI_THREAD_FUNNELED, &got); g_user = false; break;
            case 'f': g_user = true; MPI_Finalize(); g_user = false; break;
            case 'A': std::atexit([] { g_user = true; MPI_Finalize(); g_user = false; }); break;
            case 'm': EP::manageMPI(true); break;
            case 'n': EP::manageMPI(false); break;
            case 'N': held.push_back(EP::ExSeis::New()); break;
            case 'S': held.push_back(EP::ExSeis::New(PIOL_VERBOSITY_NONE, MPI_COMM_WORLD)); break;
            case 'C': cheld.push_back(PIOL_ExSeis_new(PIOL_VERBOSITY_NONE)); break;
            case 'D': held.pop_back(); break;
            case 'd': PIOL_ExSeis_delete(cheld.back()); cheld.pop_back(); break;
            case 'w': file++; work(held.back(), dir + "file_" + std::to_string(file) + ".segy", file, nt, ns); break;
            case 'b': PIOL_ExSeis_barrier(cheld.back()); if (PIOL_ExSeis_max(cheld.back(), 5) != 5) rec("wrong collective answer"); break;
            case 'q': rec("end"); std::exit(0);
            default: break;
        }
        int in = 0, fin = 0;
        MPI_Initialized(&in);
        MPI_Finalized(&fin);
        rec(std::string("after ") + s + (in ? fin ? " ended" : " running" : " none"));
    }
    for (auto* p : cheld) PIOL_ExSeis_delete(p);
    rec("end");
    return 0;
}

// ---------------------------------------------------------------- the model
namespace {
struct Model {
    bool init = false, fin = false, made = false, late = false;
    int man = -1;  // told to manage MPI, not to, or nothing
    size_t held = 0, cheld = 0;
    std::vector<std::string> want;  // the record
    void step(char s)
    {
        switch (s) {
            case 'i': case 't': want.push_back("init user"); init = true; break;
            case 'f': want.push_back("finalize user"); fin = true; break;
            case 'm': man = 1; break;
            case 'n': man = 0; break;
            case 'N': case 'S': case 'C':
                (s == 'C' ? cheld : held)++;
                if (!made && man != 0) {
                    if (!init) want.push_back("init library");
                    if (man < 0) man = init ? 0 : 1;
                    init = true;
                }
                made = true;
                break;
            case 'D': held--; break;
            case 'd': cheld--; break;
            default: break;
        }
        want.push_back(std::string("after ") + s + (init ? fin ? " ended" : " running" : " none"));
    }
    void end()
    {
        want.push_back("end");
        if (made && man == 1 && !fin) want.push_back("finalize library");
        if (late) want.push_back("finalize user");
    }
};
}  // namespace

static void prop(Ctx& c)
{
    Model m;
    std::string steps;
    auto add = [&](char s) { steps += s; m.step(s); };
    size_t n = 1 + c.size_in(0, 9);
    for (size_t i = 0; i < n; i++) {
        std::string can = "";
        if (!m.init) can += "it";
        if (!m.fin) can += "mn";
        if (!m.fin && (m.init || m.man != 0)) can += "NNSC";
        if (m.held && m.init && !m.fin) can += "Dww";
        if (m.cheld && m.init && !m.fin) can += "db";
        if (m.init && !m.fin && !m.held && !m.cheld) can += "f";
        if (can.empty()) break;
        add(can[c.draw(can.size())]);
    }
    // a program has at least one handle, and ends MPI if nobody else does
    if (!m.made && !m.fin) {
        if (!m.init && m.man == 0) add('i');
        add('N');
        add('w');
    }
    if (!m.made) { c.label("nothing made"); }
    if (m.init && !m.fin && !(m.made && m.man == 1)) {
        if (c.chance(1, 3)) {
            // or at the very end, by what the program registered when it began
            steps  = "A" + steps;
            m.late = true;
            m.want.insert(m.want.begin(), "after A none");
        }
        else {
            while (m.held) add('D');
            while (m.cheld) add('d');
            add('f');
        }
    }
    bool quit = c.chance(1, 3);
    size_t nt = c.draw(6), ns = 1 + c.draw(5);
    int np = c.chance(1, 3) ? 1 + int(c.draw(3)) : 0;
    c.desc << "steps " << steps << (quit ? " exit" : " return") << (np ? " started on " + std::to_string(np) : " started alone") << " with files of " << nt << " x " << ns;
    m.end();
    c.label(np ? "started by mpirun" : "started alone");
    bool lib = false, ends = false;
    for (auto& w : m.want) lib |= w == "init library", ends |= w == "finalize library";
    c.label(std::string(lib ? "library" : "user") + " starts, " + (ends ? "library" : "user") + " ends");
    c.label_if(m.held + m.cheld > 0, "handles held at the end");
    c.label_if(m.late, "ended by a handler");
    c.label_if(quit, "ends by exit");
    c.nontrivial(m.made && steps.size() > 2);
    if (c.rank() != 0) return;

    std::string dir = c.path("life") + "/";
    if (mkdir(dir.c_str(), 0700) != 0) { c.fail("no directory"); return; }
    char self[4096];
    ssize_t l = readlink("/proc/self/exe", self, sizeof self - 1);
    self[l > 0 ? l : 0] = 0;
    // an environment without this process' own job
    std::vector<std::string> env;
    for (char** e = environ; *e; e++) {
        std::string v = *e;
        static const std::vector<std::string> keep = {"OMPI_ALLOW_RUN", "OMPI_MCA_btl", "OMPI_MCA_pml=", "OMPI_MCA_osc", "OMPI_MCA_fcoll", "OMPI_MCA_rmaps", "OMPI_MCA_hwloc_base_binding", "OMPI_MCA_mpi_yield"};
        bool own = v.compare(0, 5, "OMPI_") == 0 || v.compare(0, 5, "PMIX_") == 0 || v.compare(0, 5, "PRTE_") == 0 || v.compare(0, 5, "ORTE_") == 0;
        for (auto& k : keep) if (v.compare(0, k.size(), k) == 0) own = false;
        if (!own) env.push_back(v);
    }
    env.push_back("OMPI_MCA_orte_tmpdir_base=" + pbt::G().scratch);
    if (!np) env.push_back("OMPI_MCA_ess_singleton_isolated=1");
    std::vector<std::string> args;
    if (np) args = {"mpirun", "--oversubscribe", "-np", std::to_string(np)};
    for (auto& a : std::vector<std::string>{self, "--child", dir, steps + (quit ? "q" : ""), std::to_string(nt), std::to_string(ns)}) args.push_back(a);
    std::vector<char*> av, ev;
    for (auto& a : args) av.push_back(&a[0]);
    for (auto& e : env) ev.push_back(&e[0]);
    av.push_back(nullptr);
    ev.push_back(nullptr);
    posix_spawn_file_actions_t fa;
    posix_spawn_file_actions_init(&fa);
    posix_spawn_file_actions_addopen(&fa, 0, "/dev/null", O_RDONLY, 0);
    posix_spawn_file_actions_addopen(&fa, 1, (dir + "out").c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
    posix_spawn_file_actions_adddup2(&fa, 1, 2);
    pid_t pid;
    int e = posix_spawnp(&pid, av[0], &fa, nullptr, av.data(), ev.data());
    posix_spawn_file_actions_destroy(&fa);
    if (e) { c.fail("the program does not start: " + std::string(strerror(e))); return; }
    int st = 0;
    auto said = [&] {
        auto b = ref::slurp(dir + "out");
        std::string s(b.begin(), b.end());
        return s.substr(0, 600);
    };
    for (int tries = 0; waitpid(pid, &st, WNOHANG) == 0; tries++) {
        if (tries > 4500) {
            kill(pid, SIGKILL);
            waitpid(pid, &st, 0);
            c.fail("the program does not end: " + said());
            break;
        }
        usleep(10000);
    }
    size_t logs = 0;
    std::string s;
    if (DIR* d = opendir(dir.c_str())) {
        while (auto* x = readdir(d)) {
            if (strncmp(x->d_name, "log.", 4) != 0) continue;
            logs++;
            auto b = ref::slurp(dir + x->d_name);
            std::istringstream is(std::string(b.begin(), b.end()));
            std::vector<std::string> got;
            for (std::string q; std::getline(is, q);) if (q != "after q none" && q != "after q running") got.push_back(q);
            for (size_t i = 0; i < std::max(got.size(), m.want.size()) && !c.failed; i++) {
                std::string g = i < got.size() ? got[i] : "nothing", w = i < m.want.size() ? m.want[i] : "nothing";
                if (g != w) c.fail("event " + std::to_string(i) + ": " + g + ", want " + w + "; " + said());
            }
        }
        closedir(d);
    }
    if (!c.failed) c.check(WIFEXITED(st) && WEXITSTATUS(st) == 0, "the program ends badly, status " + std::to_string(st) + ": " + said());
    if (!c.failed) c.eq(logs, size_t(np ? np : 1), "processes");
    if (DIR* d = opendir(dir.c_str())) {
        while (auto* x = readdir(d)) if (x->d_name[0] != '.') unlink((dir + x->d_name).c_str());
        closedir(d);
    }
    rmdir(dir.c_str());
}
int main(int argc, char** argv)
{
    if (argc == 6 && std::string(argv[1]) == "--child") return child(argc, argv);
    return pbt::run(argc, argv, prop);
}
