#include "vf.hh"
#include "udp-utils.hh"
#include <cstring>
using namespace PLEXIL;
// a message buffer of any size, an offset with room for n bytes, and any other byte of the buffer
struct Buf { std::vector<uint8_t> v; size_t at, other; uint8_t old; Buf(size_t n) { vf_vec_u8(&v, "buffer"); vf_assume(v.size() >= n); at = vf_size("offset", 0, v.size() - n); other = vf_size("other byte", 0, v.size() - 1); vf_assume((other < at) | (other >= at + n)); old = v[other]; } bool kept() { return v[other] == old; } };
static uint32_t big32(uint8_t *p) { return ((uint32_t) p[0] << 24) | ((uint32_t) p[1] << 16) | ((uint32_t) p[2] << 8) | p[3]; }
static uint16_t big16(uint8_t *p) { return (uint16_t) ((p[0] << 8) | p[1]); }
static uint32_t bitsof(float f) { uint32_t u; memcpy(&u, &f, 4); return u; }
PROOF(encode_int32) { Buf b(4); int32_t x = vf_i32("value"); encode_int32_t(x, &b.v[0], b.at); vf_check(big32(&b.v[b.at]) == (uint32_t) x, "big-endian bytes at the offset"); vf_check(b.kept(), "no other byte changed"); vf_check(decode_int32_t(&b.v[0], b.at) == x, "decodes to the same value"); }
PROOF(encode_int16) { Buf b(2); int16_t x = (int16_t) vf_u16("value"); encode_short_int(x, &b.v[0], b.at); vf_check(big16(&b.v[b.at]) == (uint16_t) x, "big-endian bytes at the offset"); vf_check(b.kept(), "no other byte changed"); vf_check(decode_short_int(&b.v[0], b.at) == x, "decodes to the same value"); }
PROOF(encode_float) { Buf b(4); float x = vf_f32("value"); encode_float(x, &b.v[0], b.at); vf_check(x != x || big32(&b.v[b.at]) == bitsof(x), "big-endian bytes at the offset"); vf_check(b.kept(), "no other byte changed"); float y = decode_float(&b.v[0], b.at); vf_check(x != x ? y != y : bitsof(y) == bitsof(x), "decodes to the same value"); }
PROOF(decode_int32) { Buf b(4); int32_t r = decode_int32_t(&b.v[0], b.at); vf_check((uint32_t) r == big32(&b.v[b.at]), "value of the big-endian bytes"); vf_check(b.kept(), "buffer unchanged"); encode_int32_t(r, &b.v[0], b.at); vf_check((uint32_t) r == big32(&b.v[b.at]), "encodes back to the same bytes"); }
PROOF(decode_int16) { Buf b(2); int16_t r = decode_short_int(&b.v[0], b.at); vf_check((uint16_t) r == big16(&b.v[b.at]), "value of the big-endian bytes"); vf_check(b.kept(), "buffer unchanged"); }
PROOF(decode_float) { Buf b(4); float r = decode_float(&b.v[0], b.at); uint32_t u = big32(&b.v[b.at]); vf_check(r != r ? (u & 0x7fffffffu) > 0x7f800000u : bitsof(r) == u, "value of the big-endian bytes"); }
