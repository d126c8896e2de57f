// Stand-in for the external "ptrie" library (not part of PDAAAL and not installed in this sandbox).
// It offers the subset of ptrie's interface PDAAAL uses (an insert-ordered set/map over byte-serialisable keys
// with stable, dense indices), implemented with the standard library, so that the PDAAAL headers that need ptrie
// can be compiled and explored.  Nothing of PDAAAL is replaced.
#ifndef VERIF_PTRIE_SHIM_H
#define VERIF_PTRIE_SHIM_H
#include <cassert>
#include <cstddef>
#include <cstring>
#include <deque>
#include <memory>
#include <string>
#include <type_traits>
#include <unordered_map>
#include <utility>
#include <vector>
// ptrie pulls these in transitively; PDAAAL relies on that.
#include <algorithm>
#include <functional>
#include <limits>
#include <set>
#include <unordered_set>

namespace ptrie {
    using uchar = unsigned char;

    template<typename T> struct byte_iterator {
        static constexpr uchar& access(T* data, size_t id) { return ((uchar*)data)[id]; }
        static constexpr const uchar& const_access(const T* data, size_t id) { return ((const uchar*)data)[id]; }
        static constexpr size_t element_size() { return sizeof(T); }
        static constexpr bool continious() { return true; }
    };

    template<typename KEY = uchar>
    class set_stable {
    protected:
        using bi = byte_iterator<KEY>;
        std::vector<std::string> _keys; // index -> bytes
        std::unordered_map<std::string, size_t> _index;
        static std::string bytes(const KEY* k, size_t n) {
            std::string s;
            s.reserve(n * bi::element_size());
            for (size_t i = 0; i < n; ++i)
                for (size_t b = 0; b < bi::element_size(); ++b) s.push_back((char)bi::const_access(k + i, b));
            return s;
        }
        std::pair<bool, size_t> insert_bytes(std::string s) {
            auto [it, fresh] = _index.emplace(s, _keys.size());
            if (fresh) _keys.push_back(std::move(s));
            return {fresh, it->second};
        }
        std::pair<bool, size_t> exists_bytes(const std::string& s) const {
            auto it = _index.find(s);
            if (it == _index.end()) return {false, (size_t)-1};
            return {true, it->second};
        }
    public:
        using elem_type = KEY;
        set_stable() = default;
        set_stable(const set_stable&) = default;
        set_stable(set_stable&&) = default;
        set_stable& operator=(const set_stable&) = default;
        set_stable& operator=(set_stable&&) = default;

        std::pair<bool, size_t> insert(const KEY& k) { return insert_bytes(bytes(&k, 1)); }
        std::pair<bool, size_t> insert(const KEY* k, size_t n) { return insert_bytes(bytes(k, n)); }
        std::pair<bool, size_t> insert(std::pair<const KEY*, size_t> p) { return insert_bytes(bytes(p.first, p.second)); }
        std::pair<bool, size_t> insert(const std::vector<KEY>& v) { return insert_bytes(bytes(v.data(), v.size())); }
        std::pair<bool, size_t> exists(const KEY& k) const { return exists_bytes(bytes(&k, 1)); }
        std::pair<bool, size_t> exists(const KEY* k, size_t n) const { return exists_bytes(bytes(k, n)); }
        std::pair<bool, size_t> exists(std::pair<const KEY*, size_t> p) const { return exists_bytes(bytes(p.first, p.second)); }
        std::pair<bool, size_t> exists(const std::vector<KEY>& v) const { return exists_bytes(bytes(v.data(), v.size())); }
        bool erase(const KEY& k) { return _index.erase(bytes(&k, 1)) > 0; }
        bool erase(std::pair<const KEY*, size_t> p) { return _index.erase(bytes(p.first, p.second)) > 0; }
        bool erase(const std::vector<KEY>& v) { return _index.erase(bytes(v.data(), v.size())) > 0; }

        size_t unpack(size_t index, KEY* dest) const {
            assert(index < _keys.size());
            const auto& s = _keys[index];
            size_t n = s.size() / bi::element_size();
            for (size_t i = 0; i < n; ++i)
                for (size_t b = 0; b < bi::element_size(); ++b)
                    bi::access(dest + i, b) = (uchar)s[i * bi::element_size() + b];
            return n;
        }
        std::vector<KEY> unpack(size_t index) const {
            assert(index < _keys.size());
            std::vector<KEY> r(_keys[index].size() / bi::element_size());
            unpack(index, r.data());
            return r;
        }
        size_t size() const { return _index.size(); }
    };
    template<typename KEY = uchar> using set = set_stable<KEY>;

    template<typename KEY, typename T>
    class map : private set_stable<KEY> {
        using base = set_stable<KEY>;
        std::deque<T> _data;
        std::pair<bool, size_t> fix(std::pair<bool, size_t> r) {
            if (r.second >= _data.size()) _data.resize(r.second + 1);
            return r;
        }
    public:
        using elem_type = KEY;
        map() = default;
        map(const map&) = default;
        map(map&&) = default;
        map& operator=(const map&) = default;
        map& operator=(map&&) = default;
        using base::unpack;
        using base::size;
        using base::exists;
        using base::erase;
        template<typename K> std::pair<bool, size_t> insert(const K& k) { return fix(base::insert(k)); }
        std::pair<bool, size_t> insert(const KEY* k, size_t n) { return fix(base::insert(k, n)); }
        T& get_data(size_t i) { return _data[i]; }
        const T& get_data(size_t i) const { return _data[i]; }
        template<typename K> T& operator[](const K& k) { return _data[insert(k).second]; }
    };
}
#endif
