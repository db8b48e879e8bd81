// Monitor: a stored network reopened in another mapping or process is the network that was stored, reading leaves the
// files alone, and files of other builds and truncated serializations are refused.
#define VERIF_QUARANTINE_MAIN
#include <fcntl.h>
#include <sys/wait.h>
#include <unistd.h>

#include "mapped_plan.hpp"

#include "io/serialization/deserializer.hpp"
#include "io/serialization/serializer.hpp"
#include "util/compiler.hpp"
#include "util/version.hpp"

namespace {

    namespace fs = std::filesystem;
    namespace sr = map_matching_2::io::serialization;
    using CS = MM2_CARTESIAN;
    using memory_network = mapped::network<CS, mapped::memory>;
    using file_network = mapped::network<CS, mapped::file>;

    std::string bytes_of(const fs::path &p) {
        std::ifstream in{p, std::ios::binary};
        return {std::istreambuf_iterator<char>{in}, {}};
    }

    void write_bytes(const fs::path &p, const std::string &s) {
        std::ofstream out{p, std::ios::binary | std::ios::trunc};
        out.write(s.data(), static_cast<std::streamsize>(s.size()));
    }

    struct query {
        net::xy c;
        double radius;
        std::size_t k;
    };

    std::vector<query> random_queries(vh::rng &r, const net::plan &p) {
        std::vector<query> q;
        for (int i = 0; i < 6; ++i) {
            q.push_back({p.nodes.empty() ? net::xy{0, 0} : r.pick(p.nodes).p, r.real(0, 1) * (i % 2 ? 20 : 2),
                    static_cast<std::size_t>(r.range(1, 12))});
        }
        return q;
    }

    template<typename Network>
    std::vector<mapped::found> answers(const Network &n, const std::vector<query> &qs) {
        std::vector<mapped::found> a;
        for (const auto &q : qs) {
            a.push_back(mapped::search(n, q.c, q.radius, q.k));
        }
        return a;
    }

    // everything of a network in one text, for comparing across processes
    template<typename Network>
    std::string describe(const Network &n) {
        const auto c = mapped::read(n);
        std::ostringstream s;
        s.precision(17);
        const auto key = [&](const auto &k) {
            s << std::get<0>(k) << ' ' << std::get<1>(k) << ' ' << std::get<2>(k) << ' ';
        };
        const auto tags = [&](const auto &list) {
            for (const auto &[k, v] : list) {
                s << k << '=' << v << ';';
            }
        };
        for (const auto &[k, t] : c.nodes) {
            key(k);
            tags(t);
            s << '\n';
        }
        for (const auto &e : c.edges) {
            s << e.id << ' ';
            key(e.s);
            key(e.t);
            for (const auto &p : e.line) {
                s << p.first << ',' << p.second << ' ';
            }
            tags(e.tags);
            for (const auto m : e.measures) {
                s << m << ' ';
            }
            s << '\n';
        }
        for (const auto &[k, out] : c.adjacency) {
            key(k);
            for (const auto &[id, t] : out) {
                s << id << '>';
                key(t);
            }
            s << '\n';
        }
        for (const auto &p : c.nodes) {
            const auto f = mapped::search(n, {std::get<1>(p.first), std::get<2>(p.first)}, 3, 5);
            s << f.segments.size() << ' ' << f.points.size();
            for (const auto d : f.nearest_segments) {
                s << ' ' << d;
            }
            s << '\n';
        }
        return s.str();
    }

    std::string in_another_process(const fs::path &dir, const fs::path &out) {
        const auto pid = ::fork();
        if (pid == 0) {
            const std::string d = dir.string(), o = out.string();
            ::execl("/proc/self/exe", "harness", "--describe", d.c_str(), o.c_str(), nullptr);
            ::_exit(127);
        }
        int status = 0;
        ::waitpid(pid, &status, 0);
        return status == 0 ? bytes_of(out) : vh::cat("status ", status);
    }

    // prepares the network in the storage of its type
    template<typename Types, typename Network>
    void fill(Network &n, const net::plan &p, bool tags, const fs::path &dir, vh::rng &r) {
        mapped::import_network<CS, mapped::memory> tagged;
        net::set_tags(tagged, p);
        auto i = mapped::make_import<CS, Types>(dir, r);
        mapped::import<CS, Types>(i, p, tags ? &tagged : nullptr);
        i.graph_helper().simplify(i, r.chance(0.5));
        n.graph_helper().from_adjacency_list(i.graph_helper(), i.tag_helper());
        n.build_spatial_indices();
    }

    template<typename F>
    bool refused(const F &f) {
        try {
            f();
            return false;
        } catch (const vh::case_failed &) {
            throw;
        } catch (const std::exception &) {
            return true;
        } catch (const boost::interprocess::interprocess_exception &) {
            return true;
        }
    }

    const char *const FILES[] = {"graph.bin", "tags.bin", "index.bin"};

    void mapped_files(vh::context &ctx, vh::rng &r) {
        const fs::path dir = ctx.scratch / "net";
        const auto p = mapped::random_plan(ctx, r);
        const auto queries = random_queries(r, p);
        const auto what = vh::cat("fingerprint ", p.fingerprint());
        mapped::contents expect;
        std::vector<mapped::found> answer;
        std::string text;
        const bool process = r.chance(ctx.thorough ? 0.2 : 0.05);
        if (r.chance(0.3)) {
            // files of an earlier network are replaced
            auto old = mapped::make_network<CS, mapped::file>(dir, r, true);
            fill<mapped::file>(old, mapped::random_plan(ctx, r), true, dir, r);
            ctx.stat("earlier_files_replaced");
        }
        {
            auto n = mapped::make_network<CS, mapped::file>(dir, r, true);
            fill<mapped::file>(n, p, r.chance(0.8), dir, r);
            expect = mapped::read(n);
            answer = answers(n, queries);
            if (process) {
                text = describe(n);
            }
        }
        std::map<std::string, std::string> stored;
        for (const auto f : FILES) {
            ctx.require(fs::exists(dir / f), "file-missing", vh::cat(f, " ", what));
            stored[f] = bytes_of(dir / f);
        }
        {
            const auto n = mapped::open_network<CS>(dir);
            const auto got = mapped::read(n);
            ctx.require(got == expect, "reopened-differs", [&] { return vh::cat(expect.difference(got), " ", what); });
            ctx.require(answers(n, queries) == answer, "reopened-search-differs", what);
            ctx.stat("networks_reopened");
            ctx.stat("edges_compared", static_cast<long long>(expect.edges.size()));
            ctx.stat("searches_compared", static_cast<long long>(answer.size()));
            if (r.chance(0.3)) {
                // a second reader at the same time
                const auto m = mapped::open_network<CS>(dir);
                ctx.require(mapped::read(m) == expect, "second-reader-differs", what);
                ctx.stat("second_readers");
            }
        }
        if (process) {
            const auto other = in_another_process(dir, ctx.scratch / "described");
            ctx.require(other == text, "other-process-differs", [&] { return vh::cat(what, " ", other.substr(0, 300)); });
            ctx.stat("reopened_in_another_process");
        }
        for (const auto f : FILES) {
            ctx.require(bytes_of(dir / f) == stored[f], "reading-changed-file", vh::cat(f, " ", what));
        }
        ctx.stat("files_unchanged", 3);

        // files of another build
        if (r.chance(0.5)) {
            const std::string f = FILES[r.range(0, 2)];
            const bool compiler = r.chance(0.5);
            const auto needle = compiler ? map_matching_2::util::get_compiler_info() : map_matching_2::util::version();
            auto changed = stored[f];
            std::size_t count = 0, pos = 0;
            for (std::size_t at = 0; (at = changed.find(needle, at)) != std::string::npos; ++at) {
                pos = at;
                ++count;
            }
            ctx.require(count > 0, "no-build-info", vh::cat(f, " lacks ", needle));
            if (count == 1) {
                const auto at = pos + static_cast<std::size_t>(r.range(0, static_cast<std::int64_t>(needle.size()) - 1));
                changed[at] = static_cast<char>(changed[at] == '7' ? '8' : '7');
                write_bytes(dir / f, changed);
                ctx.require(refused([&] { (void) mapped::open_network<CS>(dir); }), "other-build-accepted",
                        vh::cat(f, compiler ? " compiler" : " version"));
                ctx.require(bytes_of(dir / f) == changed, "refusal-changed-file", f);
                ctx.stat(compiler ? "other_compiler_refused" : "other_version_refused");
                write_bytes(dir / f, stored[f]);
            }
        } else if (r.chance(0.2)) {
            const std::string f = FILES[r.range(0, 2)];
            fs::remove(dir / f);
            if (r.chance(0.5)) {
                using mapped_file = typename mapped::file::mmap_type;
                const mapped_file bare{boost::interprocess::create_only, (dir / f).c_str(), 65536};
            }
            ctx.require(refused([&] { (void) mapped::open_network<CS>(dir); }), "missing-info-accepted", f);
            ctx.stat("bare_files_refused");
        }
        ctx.nontrivial = not expect.edges.empty();
        ctx.observe(p.fingerprint());
        quarantine::release();
        fs::remove_all(dir);
    }

    void store(const memory_network &n, const fs::path &dir) {
        sr::serializer{(dir / "tags.ser").string(), n.tag_helper()}.write();
        sr::serializer{(dir / "index.ser").string(), n.index_helper()}.write();
        sr::serializer{(dir / "graph.ser").string(), n.graph_helper()}.write();
    }

    void load(memory_network &n, const fs::path &dir) {
        sr::deserializer{(dir / "tags.ser").string(), n.tag_helper()}.read();
        sr::deserializer{(dir / "index.ser").string(), n.index_helper()}.read();
        sr::deserializer{(dir / "graph.ser").string(), n.graph_helper()}.read();
    }

    void serialized(vh::context &ctx, vh::rng &r) {
        const fs::path dir = ctx.scratch / "ser";
        fs::create_directories(dir);
        const auto p = mapped::random_plan(ctx, r);
        const auto queries = random_queries(r, p);
        const auto what = vh::cat("fingerprint ", p.fingerprint());
        mapped::contents expect;
        std::vector<mapped::found> answer;
        {
            auto n = mapped::make_network<CS, mapped::memory>(dir, r, false);
            fill<mapped::memory>(n, p, r.chance(0.8), dir, r);
            expect = mapped::read(n);
            answer = answers(n, queries);
            store(n, dir);
            if (r.chance(0.2)) {
                // writing again replaces what was there
                store(n, dir);
            }
            const auto after = mapped::read(n);
            ctx.require(after == expect, "storing-changed-network", what);
        }
        std::map<std::string, std::string> stored;
        const char *const names[] = {"graph.ser", "tags.ser", "index.ser"};
        for (const auto f : names) {
            stored[f] = bytes_of(dir / f);
        }
        auto n = mapped::make_network<CS, mapped::memory>(dir, r, false);
        load(n, dir);
        const auto got = mapped::read(n);
        ctx.require(got == expect, "loaded-differs", [&] { return vh::cat(expect.difference(got), " ", what); });
        ctx.require(answers(n, queries) == answer, "loaded-search-differs", what);
        ctx.stat("networks_loaded");
        ctx.stat("edges_compared", static_cast<long long>(expect.edges.size()));
        ctx.stat("searches_compared", static_cast<long long>(answer.size()));
        for (const auto f : names) {
            ctx.require(bytes_of(dir / f) == stored[f], "reading-changed-file", vh::cat(f, " ", what));
        }

        const std::string f = names[r.range(0, 2)];
        const auto size = static_cast<std::int64_t>(stored[f].size());
        for (int i = 0; i < 6; ++i) {
            const auto keep = i == 0 ? size - 1 : i == 1 ? r.range(0, std::min<std::int64_t>(size - 1, 60)) : r.range(0, size - 1);
            write_bytes(dir / f, stored[f].substr(0, static_cast<std::size_t>(keep)));
            auto m = mapped::make_network<CS, mapped::memory>(dir, r, false);
            ctx.require(refused([&] { load(m, dir); }), "truncated-accepted", [&] {
                return vh::cat(f, " with ", keep, " of ", size, " bytes ", what);
            });
            ctx.stat("truncated_refused");
        }
        fs::remove(dir / f);
        if (r.chance(0.5)) {
            fs::create_directory(dir / f);
        }
        auto m = mapped::make_network<CS, mapped::memory>(dir, r, false);
        ctx.require(refused([&] { load(m, dir); }), "unreadable-accepted", f);
        ctx.stat("unreadable_refused");
        fs::remove_all(dir / f);
        // a file that cannot be written is reported
        ctx.require(refused([&] { sr::serializer{"/dev/full", n.graph_helper()}.write(); }), "unwritten-accepted",
                "full device");
        ctx.require(refused([&] { sr::serializer{(dir / "none" / "x").string(), n.graph_helper()}.write(); }),
                "unwritten-accepted", "missing directory");
        ctx.stat("unwritable_reported", 2);
        ctx.nontrivial = not expect.edges.empty();
        ctx.observe(p.fingerprint());
        fs::remove_all(dir);
    }

}

int main(int argc, char **argv) {
    if (argc == 4 and std::string{argv[1]} == "--describe") {
        const auto n = mapped::open_network<CS>(argv[2]);
        std::ofstream{argv[3]} << describe(n);
        return 0;
    }
    return vh::run(argc, argv, {
            {"mapped", mapped_files, 1500, 30000, 60},
            {"serialized", serialized, 1500, 30000, 60},
    });
}
