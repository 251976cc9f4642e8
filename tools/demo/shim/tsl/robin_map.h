/* The ext/robin_map submodule is absent. Use the system version and add the
   erase_fast() extension of the drjit fork. */
#pragma once
#define robin_map robin_map_base
#include_next <tsl/robin_map.h>
#undef robin_map
namespace tsl {
template <typename Key, typename T, typename Hash = std::hash<Key>,
          typename Eq = std::equal_to<Key>,
          typename Alloc = std::allocator<std::pair<Key, T>>, bool Store = false,
          typename Growth = tsl::rh::power_of_two_growth_policy<2>>
class robin_map : public robin_map_base<Key, T, Hash, Eq, Alloc, Store, Growth> {
public:
    using Base = robin_map_base<Key, T, Hash, Eq, Alloc, Store, Growth>;
    using Base::Base;
    using Base::erase;
    void erase_fast(typename Base::iterator it) { Base::erase(it); }
    template <typename K, typename... Args>
    std::pair<typename Base::iterator, bool> try_emplace_hash(size_t hash, K &&key, Args &&...args) {
        auto it = Base::find(key, hash);
        if (it != Base::end()) return { it, false };
        return Base::try_emplace(std::forward<K>(key), std::forward<Args>(args)...);
    }
};
}
