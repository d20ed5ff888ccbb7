/* P09: wire encoding.  Real code: core/federated/network/net_util.c, include/core/federated/network/net_common.h */
#include "vf.h"
#include "vf_env_min.h"
#include <errno.h>
#include "net_util.h"
#include "net_common.h"
#include "lf_types.h"
/* STUB: lf_sleep, lf_mutex_unlock: no effect (not reached by the encoders) */
int lf_sleep(interval_t d) { return 0; }
int lf_mutex_unlock(lf_mutex_t* m) { return 0; }
#include "core/federated/network/net_util.c"
#define G 8 /* guard bytes around the field */
static unsigned char buf[64 + 2 * G], old[64 + 2 * G];
static unsigned char* begin(void) {
  for (int i = 0; i < 64 + 2 * G; i++) old[i] = buf[i] = nd_u8();
  return buf + G;
}
static void field(int at, int n, uint64_t v, const char* what) {
  for (int i = 0; i < 8; i++)
    if (i < n) CHECK(buf[G + at + i] == (unsigned char)(v >> (8 * i)), "each byte is the value's little-endian byte");
}
static void only(int at, int n) {
  for (int i = 0; i < 64 + 2 * G; i++)
    CHECK(i >= G + at && i < G + at + n || buf[i] == old[i], "nothing outside the field is written");
}
void h_int64(void) {
  unsigned char* b = begin();
  int64_t v = nd_i64();
  encode_int64(v, b);
  field(0, 8, (uint64_t)v, "int64");
  only(0, 8);
  CHECK(extract_int64(b) == v, "decoding returns the encoded value");
  COVER("int64");
}
void h_int32(void) {
  unsigned char* b = begin();
  int32_t v = nd_i32();
  encode_int32(v, b);
  field(0, 4, (uint32_t)v, "int32");
  only(0, 4);
  CHECK(extract_int32(b) == v, "decoding returns the encoded value");
  COVER("int32");
}
void h_uint32(void) {
  unsigned char* b = begin();
  uint32_t v = nd_u32();
  encode_uint32(v, b);
  field(0, 4, v, "uint32");
  only(0, 4);
  CHECK(extract_uint32(b) == v, "decoding returns the encoded value");
  COVER("uint32");
}
void h_uint16(void) {
  unsigned char* b = begin();
  uint16_t v = nd_u16();
  encode_uint16(v, b);
  field(0, 2, v, "uint16");
  only(0, 2);
  CHECK(extract_uint16(b) == v, "decoding returns the encoded value");
  COVER("uint16");
}
static tag_t some_tag(void) {
  tag_t t;
  t.time = nd_i64();
  t.microstep = nd_u32();
  return t;
}
void h_tag(void) {
  unsigned char* b = begin();
  tag_t t = some_tag();
  encode_tag(b, t);
  field(0, 8, (uint64_t)t.time, "time");
  field(8, 4, t.microstep, "microstep");
  only(0, 12);
  tag_t u = extract_tag(b);
  CHECK(u.time == t.time && u.microstep == t.microstep, "decoding returns the encoded tag");
  COVER("tag");
}
/* decoding is defined by the bytes alone: little-endian */
static uint64_t le(const unsigned char* b, int n) {
  uint64_t v = 0;
  for (int i = 0; i < 8; i++)
    if (i < n) v |= (uint64_t)b[i] << (8 * i);
  return v;
}
void h_decode(void) {
  unsigned char* b = begin();
  CHECK((uint64_t)extract_int64(b) == le(b, 8), "64-bit decoding is little-endian");
  CHECK((uint32_t)extract_int32(b) == (uint32_t)le(b, 4), "32-bit decoding is little-endian");
  CHECK(extract_uint32(b) == (uint32_t)le(b, 4), "32-bit decoding is little-endian");
  CHECK(extract_uint16(b) == (uint16_t)le(b, 2), "16-bit decoding is little-endian");
  only(0, 0);
  COVER("decode");
}
void h_header(void) {
  unsigned char* b = begin();
  uint16_t port, fed;
  size_t len;
  extract_header(b, &port, &fed, &len);
  CHECK(port == (uint16_t)le(b, 2), "port ID at bytes 0-1");
  CHECK(fed == (uint16_t)le(b + 2, 2), "federate ID at bytes 2-3");
  CHECK(len == (size_t)le(b + 4, 4), "length at bytes 4-7, every 32-bit length represented");
  only(0, 0);
  COVER("header");
}
void h_timed_header(void) {
  unsigned char* b = begin();
  uint16_t port, fed;
  size_t len;
  tag_t t;
  extract_timed_header(b, &port, &fed, &len, &t);
  CHECK(port == (uint16_t)le(b, 2) && fed == (uint16_t)le(b + 2, 2) && len == (size_t)le(b + 4, 4), "port, federate and length fields");
  CHECK(t.time == (int64_t)le(b + 8, 8) && t.microstep == (uint32_t)le(b + 16, 4), "time at bytes 8-15, microstep at bytes 16-19");
  only(0, 0);
  COVER("timed header");
}
static void stop_message(unsigned char type, tag_t t) {
  field(0, 1, type, "type");
  field(1, 8, (uint64_t)t.time, "time");
  field(9, 4, t.microstep, "microstep");
  only(0, 13);
}
void h_stop(void) {
  tag_t t = some_tag();
  unsigned char* buffer = begin();
  ENCODE_STOP_REQUEST(buffer, t.time, t.microstep);
  stop_message(10, t);
  buffer = begin();
  ENCODE_STOP_REQUEST_REPLY(buffer, t.time, t.microstep);
  stop_message(11, t);
  buffer = begin();
  ENCODE_STOP_GRANTED(buffer, t.time, t.microstep);
  stop_message(12, t);
  CHECK(MSG_TYPE_STOP_REQUEST == 10 && MSG_TYPE_STOP_REQUEST_REPLY == 11 && MSG_TYPE_STOP_GRANTED == 12, "message types as documented");
  CHECK(MSG_TYPE_STOP_REQUEST_LENGTH == 13 && MSG_TYPE_STOP_REQUEST_REPLY_LENGTH == 13 && MSG_TYPE_STOP_GRANTED_LENGTH == 13, "message lengths");
  COVER("stop");
}
