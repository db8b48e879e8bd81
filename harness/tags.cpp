// Monitor: tags of nodes and edges against a plain map, in memory and in memory-mapped files that grow.
#define VERIF_QUARANTINE_MAIN
#include "quarantine.hpp"

#include <map>
#include <set>

#include <osmium/builder/osm_object_builder.hpp>
#include <osmium/memory/buffer.hpp>

#include "flat_map_serialization.hpp"

#include "types/io/helper/tag_helper.hpp"
#include "io/serialization/serializer.hpp"
#include "io/serialization/deserializer.hpp"

#include "vh.hpp"

using namespace map_matching_2;

namespace {

    namespace st = io::memory_mapped::storage;

    using text_pair = std::pair<std::string, std::string>;

    struct model {
        std::map<text_pair, std::uint64_t> ids;
        std::map<std::uint64_t, text_pair> texts;
        std::map<std::uint64_t, std::vector<text_pair>> tags[2]; // nodes, edges
    };

    template<typename Helper>
    constexpr bool is_mmap = io::helper::is_mmap_tag_helper<Helper>;

    std::size_t random_size(vh::rng &r) {
        // from files that hardly hold the empty storage up to files that never need to grow
        switch (r.range(0, 3)) {
            case 0:
                return static_cast<std::size_t>(r.range(8, 12)) * 1024;
            case 1:
                return static_cast<std::size_t>(r.range(9000, 40000));
            case 2:
                return std::size_t{1} << r.range(14, 18);
            default:
                return 1024 * 1024;
        }
    }

    template<typename Helper>
    Helper make(vh::context &ctx, vh::rng &r, const std::string &file, bool keep = false) {
        if constexpr (is_mmap<Helper>) {
            using storage = typename Helper::tag_storage_type;
            return Helper{storage{ctx.scratch, file, st::DESTROY_AND_CREATE, random_size(r),
                    keep ? st::DO_NOT_DESTROY_ON_CLOSE : st::DESTROY_ON_CLOSE,
                    keep and r.chance(0.7) ? st::SHRINK_ON_CLOSE : st::DO_NOT_SHRINK_ON_CLOSE}};
        } else {
            return Helper{};
        }
    }

    std::string random_text(vh::rng &r) {
        static const std::vector<std::string> fixed{"", "a", "b", "ab", "abc", "bc", " ", "name", "highway", "yes", "no",
            "primary", "primary_link", "straße", "道路", "'", "\"", ",", ";", "=", "\t", "Name", "maxspeed", "50", "5",
            "050", "é", "e\xcc\x81"};
        const auto k = r.range(0, 99);
        if (k < 60) {
            return r.pick(fixed);
        }
        std::string s;
        const auto n = k < 90 ? r.range(0, 24) : k < 98 ? r.range(25, 400) : r.range(1000, 5000);
        for (std::int64_t i = 0; i < n; ++i) {
            s += static_cast<char>(k % 3 ? r.range('a', 'd') : r.range(1, 255));
        }
        return s;
    }

    std::vector<text_pair> random_tags(vh::rng &r, const std::vector<text_pair> &known) {
        std::vector<text_pair> t;
        const auto n = r.chance(0.1) ? 0 : r.chance(0.02) ? r.range(20, 120) : r.range(1, 5);
        for (std::int64_t i = 0; i < n; ++i) {
            if (not known.empty() and r.chance(0.5)) {
                t.push_back(r.pick(known));
            } else {
                t.emplace_back(random_text(r), random_text(r));
            }
        }
        return t;
    }

    template<typename Tags>
    std::vector<std::uint64_t> to_ids(const Tags &tags) {
        return {tags.begin(), tags.end()};
    }

    template<typename Helper>
    std::vector<text_pair> read(const Helper &h, int kind, std::uint64_t id) {
        std::vector<text_pair> out;
        for (const auto t : kind ? h.edge_tags(id) : h.node_tags(id)) {
            out.push_back(h.tag(t));
        }
        return out;
    }

    std::string show(const std::vector<text_pair> &t) {
        std::string s = "[";
        for (const auto &[k, v] : t) {
            s += (k.size() > 40 ? k.substr(0, 40) + "..." : k) + "=" + (v.size() > 40 ? v.substr(0, 40) + "..." : v) + ";";
        }
        return s + "]";
    }

    template<typename Helper>
    void check(vh::context &ctx, const Helper &h, const model &m, const std::string &op) {
        for (const auto &[id, text] : m.texts) {
            ctx.require(h.tag(id) == text, "tag-text:" + op, [&] {
                return vh::cat("tag ", id, " reads ", show({h.tag(id)}), " expected ", show({text}));
            });
        }
        for (int kind = 0; kind < 2; ++kind) {
            for (std::uint64_t id = 0; id < 26; ++id) {
                const auto it = m.tags[kind].find(id);
                const auto expect = it == m.tags[kind].end() ? std::vector<text_pair>{} : it->second;
                const auto got = read(h, kind, id);
                ctx.require(got == expect, vh::cat("tags-of-", kind ? "edge:" : "node:", op), [&] {
                    return vh::cat(kind ? "edge " : "node ", id, " has ", show(got), " expected ", show(expect));
                });
                ctx.stat("tag_lists_compared");
            }
        }
    }

    template<typename Helper>
    struct session {
        vh::context &ctx;
        vh::rng &r;
        Helper h;
        model m;
        std::vector<text_pair> known;

        session(vh::context &ctx, vh::rng &r, const std::string &file, bool keep = false)
            : ctx{ctx}, r{r}, h{make<Helper>(ctx, r, file, keep)} {}

        std::uint64_t id(const text_pair &t) {
            const auto got = h.id(t.first, t.second);
            const auto it = m.ids.find(t);
            if (it != m.ids.end()) {
                ctx.require(got == it->second, "tag-stored-twice",
                        [&] { return vh::cat(show({t}), " has number ", got, " and ", it->second); });
                ctx.stat("equal_texts_shared");
            } else {
                ctx.require(not m.texts.contains(got), "tag-confused",
                        [&] { return vh::cat(show({t}), " got the number ", got, " of ", show({m.texts.at(got)})); });
                m.ids[t] = got;
                m.texts[got] = t;
                known.push_back(t);
            }
            return got;
        }

        // numbers that came into being inside the helper
        void learn(const std::vector<text_pair> &tags) {
            for (const auto &t : tags) {
                id(t);
            }
        }

        void assign(int kind, std::uint64_t id, const std::vector<text_pair> &tags) {
            if (not tags.empty()) {
                m.tags[kind].emplace(id, tags); // the first tags of an element win
            }
        }

        template<typename Other>
        void step(session<Other> &o) {
            const int kind = static_cast<int>(r.range(0, 1));
            const auto id_ = static_cast<std::uint64_t>(r.range(0, 24));
            std::string op;
            switch (r.range(0, 6)) {
                case 0: {
                    op = "id";
                    id({random_text(r), random_text(r)});
                    break;
                }
                case 1: {
                    op = "set";
                    const auto tags = random_tags(r, known);
                    std::vector<std::uint64_t> ids;
                    for (const auto &t : tags) {
                        ids.push_back(id(t));
                    }
                    // the list itself is built in the storage, which must be large enough for it
                    auto v = [&] {
                        while (true) {
                            try {
                                auto v = h.tag_storage().tags();
                                v.reserve(ids.size());
                                for (const auto i : ids) {
                                    v.emplace_back(i);
                                }
                                return v;
                            } catch (const boost::interprocess::bad_alloc &) {
                                if constexpr (is_mmap<Helper>) {
                                    h.tag_storage().grow();
                                } else {
                                    throw;
                                }
                            }
                        }
                    }();
                    if (kind) {
                        h.set_edge_tags(id_, std::move(v));
                    } else {
                        h.set_node_tags(id_, std::move(v));
                    }
                    assign(kind, id_, tags);
                    break;
                }
                case 2: {
                    op = "set-osm";
                    auto tags = random_tags(r, known);
                    osmium::memory::Buffer buffer{1024, osmium::memory::Buffer::auto_grow::yes};
                    {
                        osmium::builder::NodeBuilder nb{buffer};
                        nb.set_user("");
                        osmium::builder::TagListBuilder b{nb};
                        for (auto &t : tags) {
                            t.first = t.first.substr(0, 1000);
                            t.second = t.second.substr(0, 1000);
                            b.add_tag(t);
                        }
                    }
                    buffer.commit();
                    const auto &list = buffer.get<osmium::Node>(0).tags();
                    if (kind) {
                        h.set_edge_tags(id_, list);
                    } else {
                        h.set_node_tags(id_, list);
                    }
                    if (not m.tags[kind].contains(id_)) {
                        assign(kind, id_, tags);
                    }
                    learn(tags);
                    break;
                }
                case 3: {
                    op = "copy";
                    const auto tags = random_tags(r, known);
                    std::vector<std::uint64_t> ids;
                    for (const auto &t : tags) {
                        ids.push_back(id(t));
                    }
                    if (kind) {
                        h.copy_edge_tags(id_, ids);
                    } else {
                        h.copy_node_tags(id_, ids);
                    }
                    assign(kind, id_, tags);
                    break;
                }
                case 4: {
                    op = "clone";
                    if (kind) {
                        h.clone_edge_tags(id_, o.h);
                    } else {
                        h.clone_node_tags(id_, o.h);
                    }
                    const auto it = o.m.tags[kind].find(id_);
                    if (it != o.m.tags[kind].end()) {
                        assign(kind, id_, it->second);
                        learn(it->second);
                        ctx.stat("tags_cloned");
                    }
                    break;
                }
                case 5: {
                    op = "merge";
                    const auto other = r.chance(0.05) ? id_ : static_cast<std::uint64_t>(r.range(0, 24));
                    h.merge_edge_tags(id_, other);
                    if (id_ != other and m.tags[1].contains(other)) {
                        const auto theirs = m.tags[1].at(other);
                        if (m.tags[1].contains(id_)) {
                            auto &mine = m.tags[1].at(id_);
                            const std::set<text_pair> before(mine.begin(), mine.end());
                            for (const auto &t : theirs) {
                                if (not before.contains(t)) {
                                    mine.push_back(t);
                                }
                            }
                        } else {
                            m.tags[1][id_] = theirs;
                        }
                        ctx.stat("tags_merged");
                    }
                    break;
                }
                default: {
                    if (r.chance(0.3)) {
                        op = "move";
                        Helper moved{std::move(h)};
                        if (r.chance(0.5)) {
                            h = std::move(moved);
                        } else {
                            std::destroy_at(&h);
                            std::construct_at(&h, std::move(moved));
                        }
                    } else {
                        op = "lookup";
                        bool thrown = false;
                        try {
                            (void) h.tag(m.texts.size() + 1000000);
                        } catch (const std::invalid_argument &) {
                            thrown = true;
                        }
                        ctx.require(thrown, "unknown-tag-found", "a number that was never given reads a tag");
                    }
                }
            }
            ctx.stat("operations");
            if (r.chance(0.15)) {
                check(ctx, h, m, op);
            }
        }
    };

    template<typename Helper, typename Other>
    void histories(vh::context &ctx, vh::rng &r) {
        const auto before = quarantine::unmapped.load();
        std::uint64_t fp = 0;
        {
            session<Helper> s{ctx, r, "tags.bin", true};
            session<Other> o{ctx, r, "other.bin"};
            const auto n = ctx.thorough ? r.range(20, 300) : r.range(10, 120);
            for (std::int64_t i = 0; i < n; ++i) {
                if (r.chance(0.75)) {
                    s.step(o);
                } else {
                    o.step(s);
                }
            }
            check(ctx, s.h, s.m, "end");
            check(ctx, o.h, o.m, "end-other");
            for (const auto &[t, i] : s.m.ids) {
                ctx.require(s.h.id(t.first, t.second) == i, "tag-number-changed", [&] { return show({t}); });
                fp = vh::mix(fp ^ vh::hash_str(t.first + "=" + t.second));
            }
            ctx.stat("distinct_tags", static_cast<long long>(s.m.ids.size()));
            s.h.finalize();
            check(ctx, s.h, s.m, "finalized");
            bool thrown = false;
            try {
                (void) s.h.id("a", "b");
            } catch (const std::runtime_error &) {
                thrown = true;
            }
            ctx.require(thrown, "finalized-tag-added", "a tag was added to a finalized storage");

            // stored and read again
            if constexpr (is_mmap<Helper>) {
                auto m = s.m;
                {
                    Helper closing{std::move(s.h)};
                }
                {
                    const Helper opened{typename Helper::tag_storage_type{ctx.scratch, "tags.bin", st::OPEN_READ_ONLY}};
                    check(ctx, opened, m, "reopened");
                    ctx.require(opened.tag_storage().is_finalized(), "reopened-not-finalized", "");
                    ctx.stat("storages_reopened");
                }
                std::filesystem::remove(std::filesystem::path{ctx.scratch} / "tags.bin");
            } else if constexpr (std::same_as<Helper, MM2_TAG_HELPER(MM2_MEMORY_TYPES)>) {
                const auto file = (std::filesystem::path{ctx.scratch} / "tags.ser").string();
                {
                    io::serialization::serializer<Helper> w{file, s.h};
                    w.write();
                }
                Helper back{};
                io::serialization::deserializer<Helper> d{file, back};
                d.read();
                check(ctx, back, s.m, "deserialized");
                ctx.require(back.tag_storage().is_finalized(), "deserialized-not-finalized", "");
                ctx.stat("storages_reopened");
                std::filesystem::remove(file);
            }
            ctx.sample(vh::cat(n, " operations, ", s.m.ids.size(), " different tags"));
        }
        if constexpr (is_mmap<Helper>) {
            ctx.stat("file_remappings", static_cast<long long>(quarantine::unmapped.load() - before));
        }
        ctx.nontrivial = true;
        ctx.observe(fp);
        quarantine::release();
    }

    using memory_helper = MM2_TAG_HELPER(MM2_MEMORY_TYPES);
    using import_helper = MM2_IMPORT_TAG_HELPER(MM2_MEMORY_TYPES);
    using mmap_helper = MM2_TAG_HELPER(MM2_MMAP_TYPES);
    using mmap_import_helper = MM2_IMPORT_TAG_HELPER(MM2_MMAP_TYPES);

}

int main(int argc, char **argv) {
    return vh::run(argc, argv, {
            {"memory", histories<memory_helper, import_helper>, 2000, 60000, 60},
            {"counting", histories<import_helper, memory_helper>, 2000, 60000, 60},
            {"mapped", histories<mmap_helper, mmap_import_helper>, 2500, 60000, 60},
            {"mapped-import", histories<mmap_import_helper, memory_helper>, 2000, 60000, 60},
            {"mapped-to-memory", histories<memory_helper, mmap_helper>, 1500, 40000, 60},
    });
}
