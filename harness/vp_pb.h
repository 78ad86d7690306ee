/* Model of the protobuf-c runtime, driven by the descriptors of the real generated code.
 * pack: exact for messages of varint fields.  unpack: any decodable message of the wanted type, or a decoding failure. */
#ifndef VP_PB_H
#define VP_PB_H
#include "api.pb-c.h"
#define VP_PB_FIELDS 2
static size_t vp_varint(uint64_t v, uint8_t *o) {
    size_t n = 0;
    for (int i = 0; i < 10; i++) {
        uint8_t b = v & 0x7f;
        v >>= 7;
        if (o) o[n] = b | (v ? 0x80 : 0);
        n++;
        if (!v) break;
    }
    return n;
}
static uint64_t vp_pb_value(const ProtobufCMessage *m, const ProtobufCFieldDescriptor *f) {
    const char *p = (const char *) m + f->offset;
    if (f->type == PROTOBUF_C_TYPE_UINT32) return *(const uint32_t *) p;
    if (f->type == PROTOBUF_C_TYPE_ENUM || f->type == PROTOBUF_C_TYPE_INT32) return (uint64_t) (int64_t) *(const int32_t *) p;
    VP_ASSERT(false, "model: only varint fields are packed");
    return 0;
}
size_t protobuf_c_message_get_packed_size(const ProtobufCMessage *m) {
    size_t n = 0;
    for (unsigned i = 0; i < VP_PB_FIELDS; i++) {
        if (i >= m->descriptor->n_fields) break;
        const ProtobufCFieldDescriptor *f = &m->descriptor->fields[i];
        n += vp_varint((uint64_t) f->id << 3, NULL) + vp_varint(vp_pb_value(m, f), NULL);
    }
    return n;
}
size_t protobuf_c_message_pack(const ProtobufCMessage *m, uint8_t *out) {
    size_t n = 0;
    for (unsigned i = 0; i < VP_PB_FIELDS; i++) {
        if (i >= m->descriptor->n_fields) break;
        const ProtobufCFieldDescriptor *f = &m->descriptor->fields[i];
        n += vp_varint((uint64_t) f->id << 3, out + n);
        n += vp_varint(vp_pb_value(m, f), out + n);
    }
    return n;
}
/* expected encoding of a response, from api.proto: status = field 1 (enum), details = field 2 (uint32) */
static size_t vp_expect_response(uint32_t status, uint32_t details, uint8_t *o) {
    uint8_t b[12];
    size_t n = 0;
    b[n++] = 0x08; n += vp_varint(status, b + n);
    b[n++] = 0x10; n += vp_varint(details, b + n);
    o[0] = 0; o[1] = 2; o[2] = 0; o[3] = 0; o[4] = 0; o[5] = (uint8_t) n;
    for (size_t i = 0; i < n; i++) o[6 + i] = b[i];
    return 6 + n;
}
#endif
