#pragma once
#define robin_set robin_set_base
#include_next <tsl/robin_set.h>
#undef robin_set
namespace tsl {
template <typename Key, typename Hash = std::hash<Key>, typename Eq = std::equal_to<Key>,
          typename Alloc = std::allocator<Key>, bool Store = false,
          typename Growth = tsl::rh::power_of_two_growth_policy<2>>
class robin_set : public robin_set_base<Key, Hash, Eq, Alloc, Store, Growth> {
public:
    using Base = robin_set_base<Key, Hash, Eq, Alloc, Store, Growth>;
    using Base::Base;
    using Base::erase;
    void erase_fast(typename Base::iterator it) { Base::erase(it); }
};
}
