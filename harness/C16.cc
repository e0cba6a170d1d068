// C16: gather detection finds the maximal runs of one in-line and cross-line.
#include "common.hh"
#include "ExSeisDat/PIOL/operations/gather.hh"

struct Run { size_t n; int32_t il, xl; };

static void prop(Ctx& c)
{
    int np = c.size(), rank = c.rank();
    MPI_Comm comm = MPI_COMM_WORLD;
    bool sub = np > 1 && c.chance(1, 6);
    if (sub) {
        int groups = 1 + int(c.draw(2));
        bool rev   = c.flip();
        MPI_Comm_split(MPI_COMM_WORLD, rank % groups, rev ? -rank : rank, &comm);
        MPI_Comm_rank(comm, &rank);
        MPI_Comm_size(comm, &np);
    }
    size_t nf = 1 + c.draw(2);
    std::string name = c.path("g.segy");
    auto piol = new_piol(comm);
    for (size_t f = 0; f < nf; f++) {
        // runs: few or many lines, long or short, lines which come back
        size_t want = c.count_in(0, c.chance(1, 8) ? 200 : 40, 6000);
        int style   = int(c.draw(6));
        int32_t base = c.pick(std::vector<int32_t>{0, 1, 1000, -5, INT32_MAX - 300, INT32_MIN + 4});
        size_t vals = 1 + c.draw(3);
        std::vector<Run> runs;
        size_t nt = 0;
        while (nt < want) {
            Run r{1 + c.size_in(0, style == 0 ? want : style == 1 ? 0 : 6), base, base};
            if (style == 2) r.xl = int32_t(uint32_t(r.xl) + uint32_t(runs.size()));                    // only the cross-line moves
            else if (style == 3) r.il += int32_t(runs.size() % 5);           // only the in-line moves
            else if (style == 4) { r.il += int32_t(runs.size() % 2); r.xl += int32_t(runs.size() / 2 % 2); }
            else { r.il += int32_t(c.draw(vals)); r.xl += int32_t(c.draw(vals)); }
            r.n = std::min(r.n, want - nt);
            nt += r.n;
            if (!runs.empty() && runs.back().il == r.il && runs.back().xl == r.xl) runs.back().n += r.n;
            else runs.push_back(r);
        }
        size_t ns = 1 + c.draw(4);
        std::string d = "[";
        for (size_t i = 0; i < runs.size() && i < 30; i++) d += (i ? " " : "") + std::to_string(runs[i].n) + "x(" + std::to_string(runs[i].il) + "," + std::to_string(runs[i].xl) + ")";
        c.desc << (f ? "; then " : "np=" + std::to_string(np) + (sub ? " sub-communicator " : " ")) << "nt=" << nt << " runs " << d << "]";
        size_t cross = 0, pos = 0, spans = 0;
        for (auto& r : runs) {
            size_t first = np, last = 0;
            for (int q = 0; q < np; q++) {
                size_t b = nt / np * q + std::min(size_t(q), nt % np), e = b + nt / np + (size_t(q) < nt % np);
                if (b < pos + r.n && e > pos && e > b) { first = std::min(first, size_t(q)); last = size_t(q); }
            }
            cross += last > first;
            spans += last > first + 1;
            pos += r.n;
        }
        c.label_if(cross > 0, "gather over a boundary");
        c.label_if(spans > 0, "gather over three processes");
        c.label_if(nt < size_t(np), "process without traces");
        c.nontrivial(runs.size() > 1 && nt > 2);
        if (c.rank() == 0) {
            ref::File F;
            F.ns = ns; F.inc_us = 4000; F.tr.resize(nt);
            size_t t = 0;
            uint64_t seed = uint64_t(nt) * 31 + f;
            for (auto& r : runs) for (size_t k = 0; k < r.n; k++, t++) {
                for (size_t b = 0; b < 240; b++) F.tr[t].h[b] = uint8_t(hash({seed, t, b}));
                ref::put32(&F.tr[t].h[188], uint32_t(r.il));
                ref::put32(&F.tr[t].h[192], uint32_t(r.xl));
                F.tr[t].s.assign(ns, 0);
            }
            ref::spit(name, F.encode());
        }
        barrier();
        {
            EP::ReadDirect r(piol, name);
            EP::ReadInterface* ri = r;
            auto g = EP::getIlXlGathers(piol.get(), ri);
            c.eq(g.size(), runs.size(), "gathers found");
            if (c.all_ok()) for (size_t i = 0; i < runs.size(); i++) {
                auto v = g[i];
                if (v.num_traces != runs[i].n || v.inline_ != runs[i].il || v.crossline != runs[i].xl) {
                    c.fail("gather " + std::to_string(i) + " is " + std::to_string(v.num_traces) + " traces of (" + std::to_string(v.inline_) + "," + std::to_string(v.crossline)
                           + "), want " + std::to_string(runs[i].n) + " of (" + std::to_string(runs[i].il) + "," + std::to_string(runs[i].xl) + ")");
                    break;
                }
            }
            MPI_Barrier(comm);
        }
        barrier();
        drop(name);
        if (!c.all_ok()) break;
    }
    c.check(!is_err(piol), "an error was recorded");
    piol.reset();
    if (sub) MPI_Comm_free(&comm);
}
int main(int argc, char** argv) { return pbt::run(argc, argv, prop); }
