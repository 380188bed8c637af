// Reference codecs, independent of the code under test: zlib, snappy and a small LZ4 block codec.
#ifndef VERIF_ZREF_H
#define VERIF_ZREF_H
#include <snappy.h>
#include <zlib.h>
#include "pbt.h"

namespace zref {
// LZ4 block decoder written from the format description.  max: most output allowed.
inline bool lz4_decode(const std::string& in, std::string* out, size_t max) {
    out->clear();
    size_t i = 0;
    if (in.empty()) return true;
    while (true) {
        if (i >= in.size()) return false;
        unsigned tok = (unsigned char)in[i++];
        size_t lit = tok >> 4;
        if (lit == 15) {
            unsigned char b;
            do { if (i >= in.size()) return false; b = in[i++]; lit += b; } while (b == 255);
        }
        if (lit > in.size() - i) return false;
        out->append(in, i, lit);
        i += lit;
        if (out->size() > max) return false;
        if (i == in.size()) return true;      // the last sequence has literals only
        if (in.size() - i < 2) return false;
        size_t off = (unsigned char)in[i] | ((unsigned char)in[i + 1] << 8);
        i += 2;
        if (off == 0 || off > out->size()) return false;
        size_t len = (tok & 15) + 4;
        if ((tok & 15) == 15) {
            unsigned char b;
            do { if (i >= in.size()) break; b = in[i++]; len += b; } while (b == 255);   // a cut length run is taken as it is
        }
        if (out->size() + len > max) return false;
        size_t p = out->size() - off;
        for (size_t k = 0; k < len; ++k) *out += (*out)[p + k];
        if (i == in.size()) return true;      // and a block may end with a match
        if (out->size() == max) return true;  // a full block ends there
    }
}
inline void lz4_len(std::string* o, size_t n) {
    while (n >= 255) { *o += (char)255; n -= 255; }
    *o += (char)n;
}
// LZ4 block encoder that keeps the end-of-block rules (last 5 bytes literal, last match starts 12 before the end).
inline std::string lz4_encode(const std::string& d, pbt::Src& s) {
    std::string o;
    size_t anchor = 0, i = 0;
    int every = 1 + (int)s.draw(30);
    std::map<std::string, size_t> seen;
    while (d.size() >= 13 && i + 12 < d.size()) {
        std::string k = d.substr(i, 4);
        std::map<std::string, size_t>::iterator it = seen.find(k);
        if (it != seen.end() && i - it->second <= 65535 && (i % every) == 0) {
            size_t p = it->second, len = 4;
            while (i + len < d.size() - 5 && d[p + len] == d[i + len]) ++len;
            size_t lit = i - anchor;
            o += (char)((std::min<size_t>(lit, 15) << 4) | std::min<size_t>(len - 4, 15));
            if (lit >= 15) lz4_len(&o, lit - 15);
            o.append(d, anchor, lit);
            o += (char)((i - p) & 255);
            o += (char)((i - p) >> 8);
            if (len - 4 >= 15) lz4_len(&o, len - 4 - 15);
            i += len;
            anchor = i;
        } else {
            if (seen.size() < 3000) seen[k] = i;
            ++i;
        }
    }
    size_t lit = d.size() - anchor;
    o += (char)(std::min<size_t>(lit, 15) << 4);
    if (lit >= 15) lz4_len(&o, lit - 15);
    o.append(d, anchor, lit);
    return o;
}
inline void varint(std::string* o, uint32_t v) {
    while (v >= 128) { *o += (char)(v | 128); v >>= 7; }
    *o += (char)v;
}
inline bool get_varint(const std::string& s, size_t* pos, uint32_t* v) {
    uint64_t r = 0;
    for (int k = 0; k < 10; ++k) {
        if (*pos >= s.size()) return false;
        unsigned char b = s[(*pos)++];
        if (k < 5) r |= (uint64_t)(b & 127) << (7 * k);
        if (!(b & 128)) { *v = (uint32_t)r; return true; }
    }
    return false;
}
// type: 1 gzip 2 zlib 3 snappy 4 lz4.
// Decodes what is decodable; returns true when the whole input is well formed.  Block types: a sequence of
// varint length + block, each block at most 64 KB when unpacked.
inline bool decode(int type, const std::string& in, std::string* out, size_t max = 64 << 20, size_t block_max = 65536) {
    out->clear();
    if (type <= 2) {
        size_t pos = 0;
        if (in.empty()) return true;
        while (pos < in.size()) {
            z_stream z;
            memset(&z, 0, sizeof(z));
            if (inflateInit2(&z, 15 | (type == 1 ? 16 : 0)) != Z_OK) abort();
            z.next_in = (Bytef*)in.data() + pos;
            z.avail_in = in.size() - pos;
            int rc;
            static char buf[65536];
            do {
                z.next_out = (Bytef*)buf;
                z.avail_out = sizeof(buf);
                rc = inflate(&z, Z_NO_FLUSH);
                out->append(buf, sizeof(buf) - z.avail_out);
            } while (rc == Z_OK && out->size() < max);
            pos = in.size() - z.avail_in;
            inflateEnd(&z);
            if (rc != Z_STREAM_END) return false;
        }
        return true;
    }
    size_t pos = 0;
    while (pos < in.size()) {
        uint32_t n;
        if (!get_varint(in, &pos, &n) || n > in.size() - pos || n > 131072) return false;
        std::string block = in.substr(pos, n), o;
        pos += n;
        if (type == 3) {
            size_t len;
            if (!snappy::GetUncompressedLength(block.data(), block.size(), &len) || len > max) return false;
            if (!snappy::IsValidCompressedBuffer(block.data(), block.size())) return false;
            if (!snappy::Uncompress(block.data(), block.size(), &o)) return false;
        } else if (!lz4_decode(block, &o, block_max)) return false;
        *out += o;
    }
    return true;
}
inline std::string deflate_all(const std::string& d, int window_bits, int level, int mem, int strategy, bool header, pbt::Src& s) {
    z_stream z;
    memset(&z, 0, sizeof(z));
    if (deflateInit2(&z, level, Z_DEFLATED, window_bits, mem, strategy) != Z_OK) abort();
    gz_header h;
    std::string name, extra, comment;
    if (header && window_bits > 15) {
        memset(&h, 0, sizeof(h));
        h.text = s.draw(1);
        h.os = 3;
        h.hcrc = s.draw(1);
        extra = s.data(s.logsize(300));
        name = s.str("abc.", 20);
        comment = s.str("xyz ", 20);
        if (s.chance(50)) { h.extra = (Bytef*)extra.data(); h.extra_len = extra.size(); }
        if (s.chance(50)) h.name = (Bytef*)name.c_str();
        if (s.chance(50)) h.comment = (Bytef*)comment.c_str();
        deflateSetHeader(&z, &h);
    }
    std::string o(deflateBound(&z, d.size()) + 1000, 0);
    z.next_in = (Bytef*)d.data();
    z.avail_in = d.size();
    z.next_out = (Bytef*)&o[0];
    z.avail_out = o.size();
    if (deflate(&z, Z_FINISH) != Z_STREAM_END) abort();
    o.resize(o.size() - z.avail_out);
    deflateEnd(&z);
    return o;
}
// Compressed form of d by the reference codecs, in some valid shape.
inline std::string encode(int type, const std::string& d, pbt::Src& s, int* members = NULL) {
    std::string o;
    if (type <= 2) {
        int n = type == 1 && s.chance(30) ? 1 + (int)s.draw(3) : 1;
        if (members) *members = n;
        size_t pos = 0;
        for (int i = 0; i < n; ++i) {
            size_t len = i + 1 == n ? d.size() - pos : s.draw(d.size() - pos);
            int level = s.irange(0, 9), mem = s.irange(1, 9);
            int st = s.pick<int>({Z_DEFAULT_STRATEGY, Z_FILTERED, Z_HUFFMAN_ONLY, Z_RLE, Z_FIXED});
            int wb = s.irange(9, 15);
            o += deflate_all(d.substr(pos, len), (type == 1 ? 16 : 0) + wb, level, mem, st, s.chance(40), s);
            pos += len;
        }
        return o;
    }
    size_t pos = 0;
    int blocks = 0;
    while (pos < d.size()) {
        size_t n = blocks > 40 ? 65536 : s.chance(50) ? 65536 : 1 + s.logsize(65535);
        n = std::min(n, d.size() - pos);
        n = std::min<size_t>(n, 65536);
        std::string b;
        if (type == 3) snappy::Compress(d.data() + pos, n, &b);
        else b = lz4_encode(d.substr(pos, n), s);
        varint(&o, b.size());
        o += b;
        pos += n;
        ++blocks;
    }
    return o;
}
} // namespace zref
#endif
