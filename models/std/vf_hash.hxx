// The parts of libstdc++'s hash tables which live in the compiled library, as C++ code for the symbolic executor.
#pragma once
namespace std
{
namespace __detail
{
__attribute__((used)) inline size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const
{
  size_t b = n < 11 ? 11 : n | 1;
  _M_next_resize = (size_t)(b * (double)_M_max_load_factor);
  return b;
}
__attribute__((used)) inline pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash(size_t n_bkt, size_t n_elt, size_t n_ins) const
{
  if (n_elt + n_ins <= _M_next_resize)
    return {false, 0};
  const size_t want = (size_t)((n_elt + n_ins) / (double)_M_max_load_factor) + 1;
  if (want > n_bkt)
    return {true, _M_next_bkt(want > 2 * n_bkt ? want : 2 * n_bkt)};
  _M_next_resize = (size_t)(n_bkt * (double)_M_max_load_factor);
  return {false, 0};
}
}  // namespace __detail
__attribute__((used)) inline size_t _Hash_bytes(const void* p, size_t n, size_t seed)
{
  for (size_t i = 0; i < n; ++i)
    seed = seed * 31 + (unsigned char)static_cast<const char*>(p)[i];
  return seed;
}
}  // namespace std
