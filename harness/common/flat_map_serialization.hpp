// The installed Boost (1.83) cannot serialize unordered_flat_map yet; later versions, which the program needs, can.
#ifndef VERIF_FLAT_MAP_SERIALIZATION_HPP
#define VERIF_FLAT_MAP_SERIALIZATION_HPP

#include <cstdint>

#include <boost/serialization/split_free.hpp>
#include <boost/serialization/string.hpp>
#include <boost/serialization/utility.hpp>
#include <boost/serialization/vector.hpp>
#include <boost/serialization/unique_ptr.hpp>
#include <boost/unordered/unordered_flat_map.hpp>
#include <boost/version.hpp>

#if BOOST_VERSION < 108400
namespace boost::serialization {

    template<typename Archive, typename K, typename V, typename H, typename E, typename A>
    void save(Archive &ar, const unordered_flat_map<K, V, H, E, A> &m, const unsigned int) {
        const std::uint64_t n = m.size();
        ar << n;
        for (const auto &[k, v] : m) {
            ar << k;
            ar << v;
        }
    }

    template<typename Archive, typename K, typename V, typename H, typename E, typename A>
    void load(Archive &ar, unordered_flat_map<K, V, H, E, A> &m, const unsigned int) {
        std::uint64_t n;
        ar >> n;
        m.clear();
        for (std::uint64_t i = 0; i < n; ++i) {
            K k{};
            V v{};
            ar >> k;
            ar >> v;
            m.emplace(std::move(k), std::move(v));
        }
    }

    template<typename Archive, typename K, typename V, typename H, typename E, typename A>
    void serialize(Archive &ar, unordered_flat_map<K, V, H, E, A> &m, const unsigned int version) {
        split_free(ar, m, version);
    }

}
#endif

#endif
