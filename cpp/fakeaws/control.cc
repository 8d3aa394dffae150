// Lets Python reach the in-memory store of a z5py built against the stand-in (through ctypes)
#include <cstring>
#include "fake.hxx"
#define API extern "C" __attribute__((visibility("default"), used))
API void fakeaws_reset(const char * bucket, std::size_t page) {
    auto & s = fakeaws::store(); std::lock_guard<std::mutex> l(s.m);
    s.buckets.clear(); s.buckets[bucket]; s.page = page; s.disarm();
}
API void fakeaws_arm(long at, int kind, long count) { auto & s = fakeaws::store(); std::lock_guard<std::mutex> l(s.m); s.arm(at, fakeaws::Kind(kind), count); }
API long fakeaws_disarm() { auto & s = fakeaws::store(); std::lock_guard<std::mutex> l(s.m); const long n = s.fired; s.disarm(); s.fired = 0; return n; }
API void fakeaws_put(const char * bucket, const char * key, const char * data, std::size_t n) { auto & s = fakeaws::store(); std::lock_guard<std::mutex> l(s.m); s.buckets[bucket][key] = std::string(data, n); }
// the number of objects; then key and data of each
API std::size_t fakeaws_count(const char * bucket) { auto & s = fakeaws::store(); std::lock_guard<std::mutex> l(s.m); return s.buckets[bucket].size(); }
API std::size_t fakeaws_key(const char * bucket, std::size_t i, char * key, std::size_t cap) {
    auto & s = fakeaws::store(); std::lock_guard<std::mutex> l(s.m);
    auto it = s.buckets[bucket].begin(); std::advance(it, i);
    std::strncpy(key, it->first.c_str(), cap - 1); key[cap - 1] = 0;
    return it->second.size();
}
API void fakeaws_data(const char * bucket, std::size_t i, char * data) {
    auto & s = fakeaws::store(); std::lock_guard<std::mutex> l(s.m);
    auto it = s.buckets[bucket].begin(); std::advance(it, i);
    std::memcpy(data, it->second.data(), it->second.size());
}
