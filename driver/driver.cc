// Executes h264nal's public API on commands read from stdin and writes one
// JSON event per command (see /verif/DESIGN.md, "Driver"). Nothing here
// knows what the right answer is.
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>

#include <algorithm>
#include <atomic>
#include <cmath>
#include <iostream>
#include <map>
#include <sstream>
#include <thread>

#include "fields.h"
#include "rtc_common.h"

namespace {

using Bytes = std::vector<uint8_t>;

int hexv(char c) {
  if (c >= '0' && c <= '9') return c - '0';
  if (c >= 'a' && c <= 'f') return c - 'a' + 10;
  return -1;
}
Bytes unhex(const std::string& s) {
  Bytes b;
  if (s == "-") return b;
  for (size_t i = 0; i + 1 < s.size(); i += 2)
    b.push_back((uint8_t)(hexv(s[i]) * 16 + hexv(s[i + 1])));
  return b;
}
std::string arr(const uint8_t* p, size_t n) {
  std::string s = "[";
  for (size_t i = 0; i < n; ++i) {
    if (i) s += ",";
    s += std::to_string((int)p[i]);
  }
  return s + "]";
}
std::string arr(const Bytes& b) { return arr(b.data(), b.size()); }
std::string num(uint64_t v) {
  return std::to_string(v > 2147483647u ? 2147483647u : v);
}
std::string quote(const std::string& t) {
  std::string s = "\"";
  for (unsigned char c : t) {
    if (c == '"' || c == '\\') {
      s += '\\';
      s += (char)c;
    } else if (c == '\n') {
      s += "\\n";
    } else if (c < 32 || c > 126) {
      char buf[8];
      snprintf(buf, sizeof buf, "\\u%04x", c);
      s += buf;
    } else {
      s += (char)c;
    }
  }
  return s + "\"";
}
// an exact-size heap copy, so that a read past the end is seen; or, with
// reuse, always the same memory, so that what is remembered by address is seen
bool reuse = false;

// a gap: so many zero bytes more at this place of the input than the event
// says.  Positions are reported as if the gap were not there.  (The plan puts
// it into a run of zeros, or in front of everything.)
struct Gap {
  size_t at = 0, count = 0;
  size_t len_pos = 0, len_bytes = 0;  // a length field that covers the gap
  size_t times = 1;                   // the input is so many copies (a parse shows two, an index one)
  uint32_t un = 0, un_all = 0;        // unimplemented, in two copies and in all
  size_t back(size_t pos) const {
    return pos <= at && !(pos == at && at == 0) ? pos : pos >= at + count ? pos - count : 2147483646;
  }
} gap;

struct Exact {
  uint8_t* p;
  size_t n;
  int slot = -1;
  static const size_t kRoom = 1 << 18;
  static const int kSlots = 4;
  struct Room {
    uint8_t* mem[kSlots] = {};
    bool used[kSlots] = {};
    ~Room() {
      for (auto* m : mem) free(m);
    }
  };
  static Room& room() {
    static thread_local Room r;
    return r;
  }
  explicit Exact(const Bytes& b) : p(nullptr), n(b.size()) {
    if (gap.times > 1) {
      n *= gap.times;
      p = (uint8_t*)malloc(n ? n : 1);
      for (size_t i = 0; i < gap.times; ++i) memcpy(p + i * b.size(), b.data(), b.size());
      return;
    }
    if (gap.count) {
      n += gap.count;
      p = (uint8_t*)calloc(n, 1);
      if (!p) abort();
      memcpy(p, b.data(), gap.at);
      memcpy(p + gap.at + gap.count, b.data() + gap.at, b.size() - gap.at);
      uint64_t v = 0;
      for (size_t i = 0; i < gap.len_bytes; ++i) v = (v << 8) + p[gap.len_pos + i];
      v += gap.count;
      for (size_t i = 0; i < gap.len_bytes; ++i, v >>= 8) p[gap.len_pos + gap.len_bytes - 1 - i] = (uint8_t)v;
      return;
    }
    if (reuse && n <= kRoom) {
      Room& r = room();
      for (int i = 0; i < kSlots && slot < 0; ++i)
        if (!r.used[i]) slot = i;
      if (slot >= 0) {
        if (!r.mem[slot]) r.mem[slot] = (uint8_t*)malloc(kRoom);
        r.used[slot] = true;
        p = r.mem[slot];
      }
    }
    if (!p) p = (uint8_t*)malloc(n ? n : 1);
    if (n) memcpy(p, b.data(), n);
  }
  ~Exact() {
    if (slot >= 0)
      room().used[slot] = false;
    else
      free(p);
  }
  Exact(const Exact&) = delete;
};

ParsingOptions options(int mask) {
  ParsingOptions po;
  po.add_offset = mask & 1;
  po.add_length = mask & 2;
  po.add_parsed_length = mask & 4;
  po.add_checksum = mask & 8;
  po.add_resolution = mask & 16;
  return po;
}

template <class Fn>
std::string capture(Fn fn) {
  char* buf = nullptr;
  size_t len = 0;
  FILE* f = open_memstream(&buf, &len);
  fn(f);
  fclose(f);
  std::string s(buf, len);
  free(buf);
  return s;
}

// a text as its lines; what follows the last newline is a line too
std::string lines_of(const std::string& t) {
  std::string s = "[";
  size_t a = 0;
  while (true) {
    size_t b = t.find('\n', a);
    if (a) s += ",";
    s += quote(t.substr(a, b == std::string::npos ? b : b - a));
    if (b == std::string::npos) break;
    a = b + 1;
  }
  return s + "]";
}

std::string derived(const H264SpsDataParser::SpsDataState& d) {
  int w = -7, h = -7;
  int rc = d.getResolution(&w, &h);
  std::string p;
  profileTypeToString(d.GetProfileType(), p);
  std::ostringstream o;
  o << "{\"cat\":" << (int32_t)d.getChromaArrayType() << ",\"swc\":" << d.getSubWidthC()
    << ",\"shc\":" << d.getSubHeightC() << ",\"cux\":" << d.getCropUnitX()
    << ",\"cuy\":" << d.getCropUnitY() << ",\"rc\":" << rc << ",\"w\":" << w << ",\"hh\":" << h
    << ",\"profile\":" << quote(p);
  if (d.vui_parameters != nullptr && d.vui_parameters->num_units_in_tick != 0) {
    // as mantissa and exponent; what is no number is none
    double fr = d.vui_parameters->getFramerate();
    int e = 0;
    double m = std::isfinite(fr) && fr >= 0 ? std::frexp(fr, &e) : 0;
    o << ",\"fr\":[" << (long)std::llround(std::ldexp(m, 24)) << "," << e - 24 << "]";
  }
  return o.str() + "}";
}

// the payload members that are present
std::string payload(const H264NalUnitPayloadParser::NalUnitPayloadState* p, uint32_t type) {
  if (p == nullptr) return "\"k\":\"null\",\"f\":{},\"ipp\":0";
  std::string k = "none", f = "{}", dv;
  int n = 0;
  if (p->sps) {
    n++;
    k = "sps";
    if (p->sps->sps_data) {
      f = J(*p->sps->sps_data);
      dv = derived(*p->sps->sps_data);
    } else {
      k = "sps-empty";
    }
  }
  if (p->pps) { n++; k = "pps"; f = J(*p->pps); }
  if (p->slice_layer_without_partitioning_rbsp) {
    n++;
    auto& s = *p->slice_layer_without_partitioning_rbsp;
    if (s.slice_header) { k = "slice"; f = J(*s.slice_header); } else { k = "slice-empty"; }
  }
  if (p->prefix_nal_unit) { n++; k = "prefix"; f = J(*p->prefix_nal_unit); }
  if (p->subset_sps) {
    n++;
    k = "subset";
    f = J(*p->subset_sps);
    if (p->subset_sps->seq_parameter_set_data) dv = derived(*p->subset_sps->seq_parameter_set_data);
  }
  if (p->slice_layer_extension_rbsp) {
    n++;
    auto& s = *p->slice_layer_extension_rbsp;
    if (s.slice_header_in_scalable_extension) {
      k = "shise";
      f = J(*s.slice_header_in_scalable_extension);
    } else if (s.slice_header) {
      k = "slice";
      f = J(*s.slice_header);
    } else {
      k = "ext-empty";
    }
  }
  if (n > 1) k = "multi";
  return "\"k\":\"" + k + "\",\"f\":" + f + ",\"ipp\":" + (p->IsPayloadParsed(type) ? "1" : "0") +
         (dv.empty() ? "" : ",\"dv\":" + dv);
}

std::string unit(const H264NalUnitParser::NalUnitState* u, bool placed) {
  if (u == nullptr) return "{\"null\":1}";
  std::string s = "{\"null\":0,\"h\":";
  uint32_t type = 99;
  if (u->nal_unit_header) {
    s += J(*u->nal_unit_header);
    type = u->nal_unit_header->nal_unit_type;
  } else {
    s += "{}";
  }
  s += "," + payload(u->nal_unit_payload.get(), type);
  s += ",\"plen\":" + num(gap.back(u->parsed_length));
  if (placed) s += ",\"off\":" + num(gap.back(u->offset)) + ",\"len\":" + num(gap.back(u->offset + u->length) - gap.back(u->offset));
  if (u->checksum) {
    std::string pc = u->checksum->GetPrintableChecksum();
    s += ",\"ck\":" + arr((const uint8_t*)u->checksum->GetChecksum(), u->checksum->GetLength());
    s += ",\"ckp\":\"" + pc + "\"";
  } else {
    s += ",\"ck\":[],\"ckp\":\"\"";
  }
  return s + "}";
}

// the unescaped bytes with emulation prevention
Bytes escape(const uint8_t* p, size_t n) {
  Bytes o;
  int zeros = 0;
  for (size_t i = 0; i < n; ++i) {
    if (zeros >= 2 && p[i] <= 3) {
      o.push_back(3);
      zeros = 0;
    }
    o.push_back(p[i]);
    zeros = p[i] == 0 ? zeros + 1 : 0;
  }
  return o;
}

// a NAL unit through the entry points of its parts: the header, and what
// follows it through the entry point of the payload (or, leaf, of the structure
// in it, for those that are not stored; numbers: from the bit buffer)
std::string parts(const Bytes& nal, H264BitstreamParserState* st, bool leaf, bool numbers) {
  Bytes un = UnescapeRbsp(nal.data(), nal.size());
  Exact e(un);
  BitBuffer bb(e.p, e.n);
  auto h = H264NalUnitHeaderParser::ParseNalUnitHeader(&bb);
  if (h == nullptr) return "{\"null\":1}";
  size_t by, bi;
  bb.GetCurrentOffset(&by, &bi);
  if (bi) return "{\"null\":0,\"h\":{\"unaligned\":1},\"k\":\"\",\"f\":{}}";
  Exact r(escape(e.p + by, e.n - by));
  std::unique_ptr<H264NalUnitPayloadParser::NalUnitPayloadState> p;
  uint32_t t = h->nal_unit_type;
  if (!leaf || !(t == 1 || t == 5 || t == 20 || (t == 14 && h->svc_extension_flag))) {
    if (!numbers) {
      p = H264NalUnitPayloadParser::ParseNalUnitPayload(r.p, r.n, *h, st);
    } else if (t == 14 || t == 20 || t == 21) {
      p = H264NalUnitPayloadParser::ParseNalUnitPayload(&bb, *h, st);
    } else {
      // the header as numbers
      p = H264NalUnitPayloadParser::ParseNalUnitPayload(&bb, h->nal_ref_idc, t, st);
    }
  } else {
    p = std::make_unique<H264NalUnitPayloadParser::NalUnitPayloadState>();
    if (t == 14) {
      auto& x = *h->nal_unit_header_svc_extension;
      p->prefix_nal_unit = H264PrefixNalUnitRbspParser::ParsePrefixNalUnitRbsp(
          r.p, r.n, h->svc_extension_flag, h->nal_ref_idc, x.use_ref_base_pic_flag, x.idr_flag);
    } else if (t == 20) {
      p->slice_layer_extension_rbsp =
          H264SliceLayerExtensionRbspParser::ParseSliceLayerExtensionRbsp(r.p, r.n, *h, st);
    } else {
      p->slice_layer_without_partitioning_rbsp =
          H264SliceLayerWithoutPartitioningRbspParser::ParseSliceLayerWithoutPartitioningRbsp(
              r.p, r.n, h->nal_ref_idc, t, st);
    }
  }
  return "{\"null\":0,\"h\":" + J(*h) + "," + payload(p.get(), t) + "}";
}

std::string store(H264BitstreamParserState& st, bool full) {
  std::string s = "{";
  long bad = 0;
  s += "\"sps\":[";
  bool first = true;
  for (auto& e : st.sps) {
    if (!first) s += ",";
    first = false;
    s += full ? "{\"id\":" + num(e.first) + ",\"f\":" + J(*e.second->sps_data) + "}" : num(e.first);
  }
  s += "],\"pps\":[";
  first = true;
  for (auto& e : st.pps) {
    if (!first) s += ",";
    first = false;
    s += full ? "{\"id\":" + num(e.first) + ",\"f\":" + J(*e.second) + "}" : num(e.first);
  }
  s += "],\"sub\":[";
  first = true;
  for (auto& e : st.subset_sps) {
    if (!first) s += ",";
    first = false;
    s += full ? "{\"id\":" + num(e.first) + ",\"f\":" + J(*e.second) + "}" : num(e.first);
  }
  for (uint32_t id = 0; id < 258; ++id) {
    auto a = st.sps.find(id);
    auto b = st.pps.find(id);
    auto c = st.subset_sps.find(id);
    if (st.GetSps(id).get() != (a == st.sps.end() ? nullptr : a->second.get())) bad++;
    if (st.GetPps(id).get() != (b == st.pps.end() ? nullptr : b->second.get())) bad++;
    if (st.GetSubsetSps(id).get() != (c == st.subset_sps.end() ? nullptr : c->second.get())) bad++;
  }
  return s + "],\"acc\":" + num(bad) + "}";
}

#ifdef RTP_DEFINE
// a packet through the entry point of its packetization
std::unique_ptr<H264RtpParser::RtpState> rtp_parts(const uint8_t* p, size_t n, H264BitstreamParserState* st) {
  auto r = std::make_unique<H264RtpParser::RtpState>();
  r->nal_unit_header = H264NalUnitHeaderParser::ParseNalUnitHeader(p, n);
  if (r->nal_unit_header == nullptr) return nullptr;
  uint32_t t = r->nal_unit_header->nal_unit_type;
  if (t <= 23) {
    r->rtp_single = H264RtpSingleParser::ParseRtpSingle(p, n, st);
    if (r->rtp_single == nullptr) return nullptr;
  } else if (t == 24) {
    r->rtp_stapa = H264RtpStapAParser::ParseRtpStapA(p, n, st);
    if (r->rtp_stapa == nullptr) return nullptr;
  } else if (t == 28) {
    r->rtp_fua = H264RtpFuAParser::ParseRtpFuA(p, n, r->nal_unit_header->nal_ref_idc, st);
    if (r->rtp_fua == nullptr) return nullptr;
  }
  return r;
}

std::string rtp_json(const H264RtpParser::RtpState* r) {
  if (r == nullptr) return "\"null\":1";
  std::string s = "\"null\":0,\"h\":" + (r->nal_unit_header ? J(*r->nal_unit_header) : "{}");
  int n = 0;
  std::string form = "other", units, fu = "[]";
  if (r->rtp_single) {
    n++;
    form = "single";
    auto& x = *r->rtp_single;
    units = "{\"h\":" + J(*x.nal_unit_header) + "," +
            payload(x.nal_unit_payload.get(), x.nal_unit_header->nal_unit_type) + "}";
  }
  if (r->rtp_stapa) {
    n++;
    form = "stapa";
    auto& x = *r->rtp_stapa;
    s += ",\"h2\":" + J(*x.header);
    bool same = x.nal_unit_sizes.size() == x.nal_unit_headers.size() &&
                x.nal_unit_sizes.size() == x.nal_unit_payloads.size();
    if (!same) form = "stapa-ragged";
    for (size_t i = 0; same && i < x.nal_unit_sizes.size(); ++i) {
      if (i) units += ",";
      units += "{\"size\":" + num(x.nal_unit_sizes[i]) + ",\"h\":" + J(*x.nal_unit_headers[i]) +
               "," + payload(x.nal_unit_payloads[i].get(), x.nal_unit_headers[i]->nal_unit_type) + "}";
    }
  }
  if (r->rtp_fua) {
    n++;
    form = "fua";
    auto& x = *r->rtp_fua;
    s += ",\"h2\":" + J(*x.header);
    fu = "[" + num(x.s_bit) + "," + num(x.e_bit) + "," + num(x.r_bit) + "," + num(x.fu_type) + "]";
    if (x.nal_unit_payload) units = "{" + payload(x.nal_unit_payload.get(), x.fu_type) + "}";
  }
  if (n > 1) form = "multi";
  return s + ",\"form\":\"" + form + "\",\"fu\":" + fu + ",\"units\":[" + units + "]";
}
#endif

Bytes twice(Bytes b) {
  b.reserve(2 * b.size());
  b.insert(b.end(), b.begin(), b.end());
  return b;
}

std::string digits(uint64_t v, unsigned base) {
  std::string s;
  do {
    s = num(v % base) + (s.empty() ? "" : ",") + s;
    v /= base;
  } while (v);
  return "[" + s + "]";
}

std::string limbs(uint64_t v) {
  std::string s = "[";
  for (int i = 3; i >= 0; --i) {
    s += std::to_string((v >> (16 * i)) & 0xffff);
    if (i) s += ",";
  }
  return s + "]";
}

struct Kept {
  std::unique_ptr<H264BitstreamParser::BitstreamState> bs;
  std::unique_ptr<H264NalUnitParser::NalUnitState> nal;
  std::string was;
  std::string now() const {
    if (nal) return unit(nal.get(), false);
    std::string s;
    for (auto& u : bs->nal_units) s += unit(u.get(), true) + ",";
    return s;
  }
};

std::string bit_reader(const Bytes& data, std::istringstream& in) {
  Exact e(data);
  BitBuffer bb(e.p, e.n);
  size_t lead = gap.count;  // in front of everything
  if (lead && !(lead & 1 ? bb.ConsumeBytes(lead) : bb.Seek(lead, 0))) return ",\"steps\":\"lost\"";
  std::string s = ",\"steps\":[", op;
  bool first = true;
  while (in >> op) {
    std::string name = op.substr(0, op.find(':'));
    std::vector<uint64_t> a;
    size_t pos = op.find(':');
    while (pos != std::string::npos) {
      size_t nx = op.find(':', pos + 1);
      a.push_back(strtoull(op.substr(pos + 1, nx - pos - 1).c_str(), nullptr, 10));
      pos = nx;
    }
    a.resize(2);
    bool ok = false;
    uint64_t val = 0;
    uint8_t v8 = 0;
    uint16_t v16 = 0;
    uint32_t v32 = 0;
    int32_t vs = 0;
    if (name == "u8") { ok = bb.ReadUInt8(v8); val = v8; }
    else if (name == "u16") { ok = bb.ReadUInt16(v16); val = v16; }
    else if (name == "u32") { ok = bb.ReadUInt32(v32); val = v32; }
    else if (name == "rb32") { ok = bb.ReadBits(a[0], v32); val = v32; }
    else if (name == "rb64") { ok = bb.ReadBits(a[0], val); }
    else if (name == "pk32") { ok = bb.PeekBits(a[0], v32); val = v32; }
    else if (name == "pk64") { ok = bb.PeekBits(a[0], val); }
    else if (name == "ns") { ok = bb.ReadNonSymmetric((uint32_t)a[0], v32); val = v32; }
    else if (name == "ue") { ok = bb.ReadExponentialGolomb(v32); val = v32; }
    else if (name == "se") { ok = bb.ReadSignedExponentialGolomb(vs); val = (uint32_t)vs; }
    else if (name == "cB") { ok = bb.ConsumeBytes(a[0]); }
    else if (name == "cb") { ok = bb.ConsumeBits(a[0]); }
    else if (name == "seek") { ok = bb.Seek(a[0] + lead, a[1]); }
    else abort();
    size_t by = 0, bi = 0;
    bb.GetCurrentOffset(&by, &bi);
    by -= lead;
    if (!first) s += ",";
    first = false;
    // 2^31 values are written 0: the specification's numbers end below it
    if (name == "ns" && a[0] == (uint64_t{1} << 31)) a[0] = 0;
    s += "{\"o\":\"" + name + "\",\"a\":[" + num(a[0]) + "," + num(a[1]) + "],\"ok\":" + (ok ? "1" : "0") +
         ",\"v\":" + limbs(ok ? val : 0) + ",\"p\":" + num(by * 8 + bi) +
         ",\"r\":" + num(bb.RemainingBitCount()) + "}";
  }
  return s + "]";
}

std::string bit_writer(size_t size, uint8_t fill, std::istringstream& in) {
  Bytes init(size, fill);
  Exact e(init);
  BitBufferWriter bb(e.p, e.n);
  size_t lead = gap.count;
  if (lead && !(lead & 1 ? bb.ConsumeBytes(lead) : bb.Seek(lead, 0))) return ",\"steps\":\"lost\"";
  std::string s = ",\"steps\":[", op;
  bool first = true;
  while (in >> op) {
    std::string name = op.substr(0, op.find(':'));
    std::vector<std::string> raw;
    size_t pos = op.find(':');
    while (pos != std::string::npos) {
      size_t nx = op.find(':', pos + 1);
      raw.push_back(op.substr(pos + 1, nx - pos - 1));
      pos = nx;
    }
    raw.resize(2);
    uint64_t a = strtoull(raw[0].c_str(), nullptr, 10);
    uint64_t b = strtoull(raw[1].c_str(), nullptr, 10);
    bool ok = false;
    size_t bits = 0;
    if (name == "u8") ok = bb.WriteUInt8((uint8_t)a);
    else if (name == "u16") ok = bb.WriteUInt16((uint16_t)a);
    else if (name == "u32") ok = bb.WriteUInt32((uint32_t)a);
    else if (name == "wb") ok = bb.WriteBits(a, b);
    else if (name == "ns") { bits = BitBufferWriter::SizeNonSymmetricBits((uint32_t)a, (uint32_t)b);
                             ok = bb.WriteNonSymmetric((uint32_t)a, (uint32_t)b); }
    else if (name == "ue") ok = bb.WriteExponentialGolomb((uint32_t)a);
    else if (name == "se") ok = bb.WriteSignedExponentialGolomb((int32_t)strtol(raw[0].c_str(), nullptr, 10));
    else if (name == "cb") ok = bb.ConsumeBits(a);
    else if (name == "seek") ok = bb.Seek(a + lead, b);
    else abort();
    size_t by = 0, bi = 0;
    bb.GetCurrentOffset(&by, &bi);
    by -= lead;
    if (!first) s += ",";
    first = false;
    if (name == "se") a = (uint32_t)strtol(raw[0].c_str(), nullptr, 10);
    if (name == "ns" && b == (uint64_t{1} << 31)) b = 0;
    s += "{\"o\":\"" + name + "\",\"a\":" + limbs(a) + ",\"b\":" + num(b) + ",\"ok\":" + (ok ? "1" : "0") +
         ",\"p\":" + num(by * 8 + bi) + ",\"sz\":" + num(bits) + ",\"m\":" + arr(e.p + lead, e.n - lead) + "}";
  }
  return s + "]";
}

template <class P>
std::string one(const P& p) {
  return p == nullptr ? std::string(",\"null\":1") : ",\"null\":0,\"f\":" + J(*p);
}

}  // namespace

int main(int argc, char** argv) {
  std::ios::sync_with_stdio(false);
  FILE* out = stdout;
  auto st = std::make_unique<H264BitstreamParserState>();
  std::vector<Kept> kept;
  std::string line;
  while (std::getline(std::cin, line)) {
    std::istringstream in(line);
    std::string op;
    in >> op;
    gap = Gap();
    if (op.compare(0, 4, "gap:") == 0) {
      std::istringstream g(op.substr(4));
      char c;
      g >> gap.at >> c >> gap.count >> c >> gap.len_pos >> c >> gap.len_bytes;
      in >> op;
    } else if (op.compare(0, 4, "rep:") == 0) {
      gap.times = strtoull(op.c_str() + 4, nullptr, 10);
      in >> op;
    }
    std::string ev = "{\"op\":\"" + op + "\"";
    uint32_t un0 = get_unimplemented_count();
    auto fin = [&](bool full) {
      uint32_t un = get_unimplemented_count() - un0;
      if (gap.times > 1) un = un == gap.un_all ? gap.un : 1000000;
      ev += ",\"un\":" + num(un);
      if (full) ev += ",\"full\":1";
      ev += ",\"st\":" + store(*st, full);
    };
    if (op == "S") {
      int one = 0;
      in >> one;
      reuse = one != 0;
      // results must not depend on the life of the state that made them
      st = std::make_unique<H264BitstreamParserState>();
      long stale = 0;
      for (auto& k : kept) stale += (k.now() != k.was);
      kept.clear();
      ev += ",\"stale\":" + num(stale);
    } else if (op == "nal") {
      std::string fl, hx;
      int mask;
      in >> fl >> mask >> hx;
      Bytes b = unhex(hx);
      ev += ",\"esc\":" + std::string(fl.find('e') != std::string::npos ? "1" : "0") +
            ",\"mask\":" + num(mask) + ",\"d\":" + arr(b);
      std::unique_ptr<H264NalUnitParser::NalUnitState> u;
      bool in_parts = fl.find_first_of("pl") != std::string::npos;
      if (in_parts) {
        ev += ",\"r\":" + parts(b, st.get(), fl.find('l') != std::string::npos, fl.find('b') != std::string::npos);
      } else {
        Exact e(b);
        if (fl.find('e') != std::string::npos)
          u = H264NalUnitParser::ParseNalUnit(e.p, e.n, st.get(), options(mask));
        else
          u = H264NalUnitParser::ParseNalUnitUnescaped(e.p, e.n, st.get(), options(mask));
      }
      if (!in_parts) ev += ",\"r\":" + unit(u.get(), false);
#ifdef FDUMP_DEFINE
      if (u && fl.find('d') != std::string::npos) {
        u->offset = 0;
        u->length = b.size();
        uint64_t far[3];
        if (in >> far[0] >> far[1] >> far[2]) {
          // as if it were there, and so long
          u->offset = far[0];
          u->length = far[1];
          u->parsed_length = far[2];
          ev += ",\"at\":[" + digits(far[0], 16) + "," + digits(far[1], 10) + "," + digits(far[2], 16) + "]";
        }
        ev += ",\"dump1\":" + lines_of(capture([&](FILE* f) { u->fdump(f, -1, options(mask)); }));
        ev += ",\"dumpn\":" + lines_of(capture([&](FILE* f) { u->fdump(f, 0, options(mask)); }));
      }
#endif
      fin(fl.find('f') != std::string::npos);
      if (u && !gap.count) {
        Kept k;
        k.was = unit(u.get(), false);
        k.nal = std::move(u);
        kept.push_back(std::move(k));
      }
    } else if (op == "ab" || op == "lf") {
      std::string fl, hx;
      int mask;
      size_t n = 0;
      in >> fl >> mask;
      if (op == "lf") in >> n;
      in >> hx;
      Bytes b = unhex(hx);
      ev += ",\"n\":" + num(n) + ",\"int\":" + (fl.find('i') != std::string::npos ? "1" : "0") +
            ",\"mask\":" + num(mask) + ",\"d\":" + (gap.times > 1 ? arr(twice(b)) : arr(b));
      std::unique_ptr<H264BitstreamParser::BitstreamState> bs;
      if (gap.times > 1) {
        // the second copy meets the parameter sets of the first, and so do all after it
        if (fl.find('i') == std::string::npos) abort();
        uint32_t un[3] = {get_unimplemented_count(), 0, 0};
        size_t times = gap.times;
        for (gap.times = 1; gap.times <= 2; ++gap.times) {
          Exact e(b);
          if (op == "ab") H264BitstreamParser::ParseBitstream(e.p, e.n, options(mask));
          else H264BitstreamParser::ParseBitstreamNALULength(e.p, e.n, n, options(mask));
          un[gap.times] = get_unimplemented_count();
        }
        gap.times = times;
        un0 = un[2];
        un[2] -= un[1];
        un[1] -= un[0];
        gap.un = un[2];
        gap.un_all = un[1] + (un[2] - un[1]) * (uint32_t)(times - 1);
      }
      {
        Exact e(b);
        bool internal = fl.find('i') != std::string::npos;
        if (op == "ab")
          bs = internal ? H264BitstreamParser::ParseBitstream(e.p, e.n, options(mask))
                        : H264BitstreamParser::ParseBitstream(e.p, e.n, st.get(), options(mask));
        else
          bs = internal ? H264BitstreamParser::ParseBitstreamNALULength(e.p, e.n, n, options(mask))
                        : H264BitstreamParser::ParseBitstreamNALULength(e.p, e.n, n, st.get(), options(mask));
        // the bytes that were parsed are those of the place that is reported
        bool own = true;
        for (size_t i = 0; bs && i < bs->nal_units.size() && i < 3000; ++i) {
          auto& u = *bs->nal_units[i];
          if (!u.checksum || u.offset > e.n || u.length > e.n - u.offset) continue;
          Bytes x = UnescapeRbsp(e.p + u.offset, u.length);
          BitBuffer bb(x.data(), x.size());
          own = own && NaluChecksum::GetNaluChecksum(&bb)->GetPrintableChecksum() == u.checksum->GetPrintableChecksum();
        }
        ev += ",\"own\":" + num(own);
      }
      if (bs == nullptr) {
        ev += ",\"null\":1";
      } else {
        auto& po = bs->parsing_options_;
        ev += ",\"null\":0,\"omask\":" +
              num((po.add_offset ? 1 : 0) + (po.add_length ? 2 : 0) + (po.add_parsed_length ? 4 : 0) +
                  (po.add_checksum ? 8 : 0) + (po.add_resolution ? 16 : 0));
        auto& us = bs->nal_units;
        if (gap.times > 1 && us.size() % gap.times == 0) {
          size_t m = us.size() / gap.times, same = 2 * m;
          for (size_t i = 2 * m; i < us.size(); ++i) {
            auto &x = *us[i], &y = *us[m + i % m];
            bool eq = x.offset == y.offset + (i / m - 1) * b.size() && x.length == y.length &&
                      x.nal_unit_header->nal_unit_type == y.nal_unit_header->nal_unit_type;
            if (eq && i >= us.size() - m) {
              x.offset = y.offset;
              eq = unit(&x, true) == unit(&y, true);
            }
            same += eq;
          }
          if (same == us.size()) us.resize(2 * m);
        }
        if (us.size() > 3000) us.resize(3000);
        ev += ",\"units\":[";
        for (size_t i = 0; i < bs->nal_units.size(); ++i) {
          if (i) ev += ",";
          ev += unit(bs->nal_units[i].get(), true);
        }
        ev += "]";
#ifdef FDUMP_DEFINE
        if (fl.find('d') != std::string::npos) {
          ev += ",\"dump1\":" + lines_of(capture([&](FILE* f) { bs->fdump(f, -1, options(mask)); }));
          ev += ",\"dumpn\":" + lines_of(capture([&](FILE* f) { bs->fdump(f, 0, options(mask)); }));
        }
#endif
      }
      fin(fl.find('f') != std::string::npos);
      if (bs && !gap.count && gap.times == 1) {
        Kept k;
        k.bs = std::move(bs);
        k.was = k.now();
        kept.push_back(std::move(k));
      }
#ifdef RTP_DEFINE
    } else if (op == "rtp") {
      std::string fl, hx;
      in >> fl >> hx;
      Bytes b = unhex(hx);
      ev += ",\"d\":" + arr(b);
      std::unique_ptr<H264RtpParser::RtpState> r;
      {
        Exact e(b);
        if (fl.find('p') == std::string::npos) r = H264RtpParser::ParseRtp(e.p, e.n, st.get());
        else r = rtp_parts(e.p, e.n, st.get());
      }
      ev += ",\"r\":{" + rtp_json(r.get()) + "}";
      if (r && fl.find('d') != std::string::npos) {
        ev += ",\"dump1\":" + lines_of(capture([&](FILE* f) { r->fdump(f, -1, options(31)); }));
        ev += ",\"dumpn\":" + lines_of(capture([&](FILE* f) { r->fdump(f, 0, options(31)); }));
      }
      fin(fl.find('f') != std::string::npos);
#endif
    } else if (op == "un") {
      std::string hx;
      in >> hx;
      Bytes b = unhex(hx);
      Exact e(b);
      ev += ",\"d\":" + arr(b) + ",\"o\":";
      Bytes o = UnescapeRbsp(e.p, e.n);
      if (gap.count) {
        // without the gap
        Bytes z(gap.count, 0);
        auto at = std::search(o.begin(), o.end(), z.begin(), z.end());
        if (at != o.end()) o.erase(at, at + gap.count);
        o.resize(std::min(o.size(), size_t{100000}));
      }
      ev += arr(o);
    } else if (op == "ix" || op == "ex") {
      std::string hx;
      in >> hx;
      Bytes b = unhex(hx);
      Exact e(b);
      auto v = op == "ix" ? H264BitstreamParser::FindNaluIndices(e.p, e.n)
                          : H264BitstreamParser::FindNaluIndicesExplicitFraming(e.p, e.n);
      ev += ",\"d\":" + arr(b) + ",\"o\":[";
      if (gap.times > 1 && v.size() % gap.times == 0) {
        // all copies are cut alike: the first is enough
        size_t m = v.size() / gap.times, same = 0;
        for (size_t i = 0; i < v.size(); ++i) {
          size_t d = (i / m) * b.size();
          auto &x = v[i], &y = v[i % m];
          same += x.start_offset == y.start_offset + d && x.payload_start_offset == y.payload_start_offset + d &&
                  x.payload_size == y.payload_size;
        }
        if (same == v.size()) v.resize(m);
      }
      if (v.size() > 3000) v.resize(3000);
      for (size_t i = 0; i < v.size(); ++i) {
        if (i) ev += ",";
        ev += "[" + num(gap.back(v[i].start_offset)) + "," + num(gap.back(v[i].payload_start_offset)) + "," +
              num(gap.back(v[i].payload_start_offset + v[i].payload_size) - gap.back(v[i].payload_start_offset)) + "]";
      }
      ev += "]";
    } else if (op == "ty") {
      std::string hx;
      in >> hx;
      Bytes b = unhex(hx);
      Exact e(b);
      NalUnitType t = UNSPECIFIED_NUT;
      bool ok = H264NalUnitHeaderParser::GetNalUnitType(e.p, e.n, t);
      ev += ",\"d\":" + arr(b) + ",\"ok\":" + (ok ? "1" : "0") + ",\"t\":" + num(ok ? t : 0);
      fin(false);
    } else if (op == "one") {
      // a single structure, through its (data, length) entry point
      std::string what, hx;
      uint32_t a = 0, b2 = 0, c = 0, d = 0;
      in >> what >> a >> b2 >> c >> d >> hx;
      Bytes b = unhex(hx);
      ev += ",\"what\":\"" + what + "\",\"a\":[" + num(a) + "," + num(b2) + "," + num(c) + "," + num(d) +
            "],\"d\":" + arr(b);
      Exact e(b);
      if (what == "hdr") ev += one(H264NalUnitHeaderParser::ParseNalUnitHeader(e.p, e.n));
      else if (what == "sps") {
        auto p = H264SpsParser::ParseSps(e.p, e.n);
        ev += p == nullptr ? ",\"null\":1" : one(p->sps_data);
      }
      else if (what == "spsdata") ev += one(H264SpsDataParser::ParseSpsData(e.p, e.n));
      else if (what == "vui") ev += one(H264VuiParametersParser::ParseVuiParameters(e.p, e.n));
      else if (what == "hrd") ev += one(H264HrdParametersParser::ParseHrdParameters(e.p, e.n));
      else if (what == "spx") ev += one(H264SpsExtensionParser::ParseSpsExtension(e.p, e.n));
      else if (what == "pps") ev += one(H264PpsParser::ParsePps(e.p, e.n, a));
      else if (what == "subset") ev += one(H264SubsetSpsParser::ParseSubsetSps(e.p, e.n));
      else if (what == "svcext") ev += one(H264SpsSvcExtensionParser::ParseSpsSvcExtension(e.p, e.n, a));
      else if (what == "rplm") ev += one(H264RefPicListModificationParser::ParseRefPicListModification(e.p, e.n, a));
      else if (what == "pwt") ev += one(H264PredWeightTableParser::ParsePredWeightTable(e.p, e.n, a, b2, c, d));
      else if (what == "drpm") ev += one(H264DecRefPicMarkingParser::ParseDecRefPicMarking(e.p, e.n, a));
      else if (what == "svchdr") ev += one(H264NalUnitHeaderSvcExtensionParser::ParseNalUnitHeaderSvcExtension(e.p, e.n));
      else if (what == "prefixsvc") ev += one(H264PrefixNalUnitSvcParser::ParsePrefixNalUnitSvc(e.p, e.n, a, b2, c));
      else if (what == "slice") ev += one(H264SliceHeaderParser::ParseSliceHeader(e.p, e.n, a, b2, st.get()));
      else abort();
      fin(false);
    } else if (op == "rb") {
      std::string hx;
      size_t off;
      in >> hx >> off;
      Bytes b = unhex(hx);
      Exact e(b);
      BitBuffer bb(e.p, e.n);
      bb.ConsumeBits(off + (gap.at == 0 ? gap.count * 8 : 0));
      bool al = byte_aligned(&bb);
      size_t cur = gap.back(get_current_offset(&bb));
      bool more = more_rbsp_data(&bb);
      size_t by, bi;
      bb.GetCurrentOffset(&by, &bi);
      size_t after_more = gap.back(by) * 8 + bi;
      bool tr = rbsp_trailing_bits(&bb);
      bb.GetCurrentOffset(&by, &bi);
      by = gap.back(by);
      ev += ",\"d\":" + arr(b) + ",\"at\":" + num(off) + ",\"al\":" + (al ? "1" : "0") + ",\"cur\":" + num(cur) +
            ",\"more\":" + (more ? "1" : "0") + ",\"pm\":" + num(after_more) + ",\"tr\":" + (tr ? "1" : "0") +
            ",\"pt\":" + num(by * 8 + bi);
    } else if (op == "nt") {
      uint32_t t;
      in >> t;
      ev += ",\"t\":" + num((int32_t)t) + ",\"name\":\"" + NalUnitTypeToString(t) + "\",\"slice\":" +
            (IsSliceSegment(t) ? "1" : "0") + ",\"res\":" + (IsNalUnitTypeReserved(t) ? "1" : "0") + ",\"uns\":" +
            (IsNalUnitTypeUnspecified(t) ? "1" : "0");
    } else if (op == "cs") {
      std::string hx;
      in >> hx;
      Bytes b = unhex(hx);
      Exact e(b);
      BitBuffer bb(e.p, e.n);
      size_t at = 0;
      if (in >> at) {
        bb.Seek(at / 8 + (gap.at == 0 ? gap.count : 0), at % 8);
      } else {
        at = 0;
      }
      auto c = NaluChecksum::GetNaluChecksum(&bb);
      size_t by, bi;
      bb.GetCurrentOffset(&by, &bi);
      by = gap.back(by);
      ev += ",\"d\":" + arr(b) + ",\"ck\":" + arr((const uint8_t*)c->GetChecksum(), c->GetLength()) +
            ",\"ckp\":\"" + c->GetPrintableChecksum() + "\",\"at\":" + num(at) + ",\"p\":" + num(by * 8 + bi) + ",\"ckt\":[";
      // into buffers of 3 to 12 characters
      for (int n = 3; n <= 12; ++n) {
        char* t = (char*)malloc(n);
        c->fdump(t, n);
        ev += std::string(n > 3 ? "," : "") + quote(std::string(t, strnlen(t, n)));
        free(t);
      }
      ev += "]";
    } else if (op == "wd") {
      // the widths of elements that depend on parameter sets: for each of the
      // two slice headers
      using A = H264SliceHeaderParser::SliceHeaderState;
      using B = H264SliceHeaderInScalableExtensionParser::SliceHeaderInScalableExtensionState;
      uint32_t w, h, r, f, l, g;
      in >> w >> h >> r >> f >> l >> g;
      H264PpsParser::PpsState pps;
      pps.num_slice_groups_minus1 = g;
      ev += ",\"a\":[" + num(w) + "," + num(h) + "," + num(r) + "," + num(f) + "," + num(l) + "," + num(g) + "],\"o\":[[" +
            num(A::getFrameNumLen(f)) + "," + num(A::getPicOrderCntLsbLen(l)) + "," +
            num(A::getSliceGroupChangeCycleLen(w, h, r)) + "," + num(A::getPicWidthInMbs(w)) + "," +
            num(A::getPicHeightInMapUnits(h)) + "," + num(A::getPicSizeInMapUnits(w, h)) + "," +
            num(A::getSliceGroupChangeRate(r)) + "],[" +
            num(B::getFrameNumLen(f)) + "," + num(B::getPicOrderCntLsbLen(l)) + "," +
            num(B::getSliceGroupChangeCycleLen(w, h, r)) + "," + num(B::getPicWidthInMbs(w)) + "," +
            num(B::getPicHeightInMapUnits(h)) + "," + num(B::getPicSizeInMapUnits(w, h)) + "," +
            num(B::getSliceGroupChangeRate(r)) + "]],\"g\":" + num(pps.getSliceGroupIdLen());
    } else if (op == "br") {
      std::string hx;
      in >> hx;
      Bytes b = unhex(hx);
      ev += ",\"d\":" + arr(b) + bit_reader(b, in);
    } else if (op == "bw") {
      size_t n;
      int fill;
      in >> n >> fill;
      ev += ",\"n\":" + num(n) + ",\"fill\":" + num(fill) + bit_writer(n, (uint8_t)fill, in);
    } else if (op == "slow") {
      // much of the same: that there is an answer
      size_t k;
      std::string first, hx;
      in >> k >> first >> hx;
      Bytes b = unhex(first), x = unhex(hx);
      for (size_t i = 0; i < k; ++i) b.insert(b.end(), x.begin(), x.end());
      Exact e(b);
      H264BitstreamParserState own;
      UnescapeRbsp(e.p, e.n);
      H264BitstreamParser::FindNaluIndices(e.p, e.n);
      H264BitstreamParser::FindNaluIndicesExplicitFraming(e.p, e.n);
      H264NalUnitParser::ParseNalUnit(e.p, e.n, &own, options(31));
      H264NalUnitParser::ParseNalUnitUnescaped(e.p, e.n, &own, options(0));
      auto bs = H264BitstreamParser::ParseBitstream(e.p, e.n, &own, options(31));
      size_t units = bs ? bs->nal_units.size() : 0;
      for (size_t n : {0, 1, 2, 4}) {
        bs = H264BitstreamParser::ParseBitstreamNALULength(e.p, e.n, n, &own, options(31));
        units += bs ? bs->nal_units.size() : 0;
      }
#ifdef RTP_DEFINE
      H264RtpParser::ParseRtp(e.p, e.n, &own);
#endif
      BitBuffer bb(e.p, e.n);
      more_rbsp_data(&bb);
      reset_unimplemented_count();
      ev += ",\"abs\":" + num(get_unimplemented_count());
    } else if (op == "uc") {
      reset_unimplemented_count();
      ev += ",\"abs\":" + num(get_unimplemented_count());
    } else if (op == "abs") {
      ev += ",\"abs\":" + num(get_unimplemented_count());
    } else if (op == "mx") {
      // k threads, every entry point, rendering included: what one thread gets
      // alone is what each gets among others
      size_t k, reps;
      std::string hx;
      in >> k >> reps;
      std::vector<Bytes> bufs;
      while (in >> hx) bufs.push_back(unhex(hx));
      auto everything = [&](size_t skip) {
        std::string s;
        H264BitstreamParserState mine, theirs;
        Bytes ab, lf;
        for (size_t j = 0; j < bufs.size(); ++j) {
          if (j == skip) continue;   // groups of their own
          Exact e(bufs[j]);
          auto u = H264NalUnitParser::ParseNalUnit(e.p, e.n, &mine, options(31));
          s += unit(u.get(), false);
#ifdef FDUMP_DEFINE
          if (u) {
            s += capture([&](FILE* f) { u->fdump(f, 0, options(31)); });
            s += capture([&](FILE* f) { u->fdump(f, -1, options(31)); });
          }
#endif
#ifdef RTP_DEFINE
          auto r = H264RtpParser::ParseRtp(e.p, e.n, &theirs);
          s += rtp_json(r.get());
          if (r) s += capture([&](FILE* f) { r->fdump(f, 0, options(31)); });
#endif
          BitBuffer bb(e.p, e.n);
          s += NaluChecksum::GetNaluChecksum(&bb)->GetPrintableChecksum();
          ab.insert(ab.end(), {0, 0, 0, 1});
          ab.insert(ab.end(), bufs[j].begin(), bufs[j].end());
          lf.insert(lf.end(), {0, 0, (uint8_t)(bufs[j].size() >> 8), (uint8_t)bufs[j].size()});
          lf.insert(lf.end(), bufs[j].begin(), bufs[j].end());
        }
        Exact a(ab), l(lf);
        for (auto& x : {H264BitstreamParser::ParseBitstream(a.p, a.n, options(31)).release(),
                        H264BitstreamParser::ParseBitstreamNALULength(l.p, l.n, 4, options(31)).release()}) {
          if (x) {
            for (auto& u : x->nal_units) s += unit(u.get(), true);
#ifdef FDUMP_DEFINE
            s += capture([&](FILE* f) { x->fdump(f, 0, options(31)); });
#endif
          }
          delete x;
        }
        for (auto& i : H264BitstreamParser::FindNaluIndices(a.p, a.n)) s += num(i.start_offset) + "+" + num(i.payload_size) + ",";
        return s;
      };
      size_t kinds = bufs.size() < 3 ? bufs.size() : 3;
      std::vector<std::string> alone;
      for (size_t g = 0; g < kinds; ++g) alone.push_back(everything(g));
      std::vector<char> same(k, 1);
      std::vector<std::thread> th;
      std::atomic<int> go{0};
      for (size_t t = 0; t < k; ++t)
        th.emplace_back([&, t] {
          go++;
          while (go < (int)k) {
          }
          for (size_t r = 0; r < reps; ++r)
            if (everything((t + r) % kinds) != alone[(t + r) % kinds]) same[t] = 0;
        });
      for (auto& t : th) t.join();
      bool all = true;
      for (size_t t = 0; t < k; ++t) all = all && same[t];
      reset_unimplemented_count();
      ev += ",\"k\":" + num(k) + ",\"reps\":" + num(reps) + ",\"d\":[";
      for (size_t j = 0; j < bufs.size(); ++j) ev += (j ? "," : "") + arr(bufs[j]);
      ev += std::string("],\"same\":") + (all ? "1" : "0");
    } else if (op == "mt") {
      // k threads at once, each with a state of its own; thread t parses the
      // group of NAL units t mod (number of groups), again and again from an
      // empty state
      size_t k, reps;
      std::string hx;
      in >> k >> reps;
      std::vector<std::vector<Bytes>> groups(1);
      while (in >> hx) {
        if (hx == "/")
          groups.emplace_back();
        else
          groups.back().push_back(unhex(hx));
      }
      std::vector<std::string> res(k);
      std::vector<char> same(k, 1);
      std::vector<std::thread> th;
      std::atomic<int> go{0};
      uint32_t u0 = get_unimplemented_count();
      for (size_t t = 0; t < k; ++t)
        th.emplace_back([&, t] {
          const auto& bufs = groups[t % groups.size()];
          std::vector<std::unique_ptr<Exact>> ex;
          for (auto& b : bufs) ex.emplace_back(new Exact(b));
          go++;
          while (go < (int)k) {
          }
          for (size_t r = 0; r < reps; ++r) {
            H264BitstreamParserState mine;
            bool render = r == 0 || r + 1 == reps || r % 97 == 0;
            std::string s;
            for (size_t j = 0; j < bufs.size(); ++j) {
              auto u = H264NalUnitParser::ParseNalUnit(ex[j]->p, ex[j]->n, &mine, options(31));
              if (render) {
                if (j) s += ",";
                s += unit(u.get(), false);
              }
            }
            if (r == 0)
              res[t] = s;
            else if (render && s != res[t])
              same[t] = 0;
          }
        });
      for (auto& t : th) t.join();
      ev += ",\"k\":" + num(k) + ",\"reps\":" + num(reps) + ",\"d\":[";
      for (size_t g = 0; g < groups.size(); ++g) {
        ev += g ? ",[" : "[";
        for (size_t j = 0; j < groups[g].size(); ++j) ev += (j ? "," : "") + arr(groups[g][j]);
        ev += "]";
      }
      bool all = true;
      for (size_t t = 0; t < k; ++t) all = all && same[t] && res[t] == res[t % groups.size()];
      ev += std::string("],\"same\":") + (all ? "1" : "0") + ",\"units\":[";
      for (size_t g = 0; g < groups.size() && g < k; ++g) ev += (g ? ",[" : "[") + res[g] + "]";
      ev += "]";
      ev += ",\"unt\":" + num(get_unimplemented_count() - u0);
    } else {
      fprintf(stderr, "driver: unknown op %s\n", op.c_str());
      return 3;
    }
    ev += "}\n";
    fwrite(ev.data(), 1, ev.size(), out);
    fflush(out);
  }
  return 0;
}
