// Minimal stand-in for the parts of Stim that /repo's driver code names, so that the driver can be
// compiled offline. It models only the *interface contract* PyMatching relies on: a detector error
// model is a sequence of error instructions, each a probability plus a list of targets (relative
// detector, logical observable, separator).
#ifndef VERIF_STUB_STIM_H
#define VERIF_STUB_STIM_H

#include <algorithm>
#include <cassert>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <iostream>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <string_view>
#include <type_traits>
#include <utility>
#include <vector>

namespace stim {

constexpr uint64_t STUB_OBS_BIT = uint64_t{1} << 63;
constexpr uint64_t STUB_SEP = UINT64_MAX;

struct DemTarget {
    uint64_t data;
    static DemTarget relative_detector_id(uint64_t id) { return {id}; }
    static DemTarget observable_id(uint64_t id) { return {STUB_OBS_BIT | id}; }
    static DemTarget separator() { return {STUB_SEP}; }
    uint64_t raw_id() const { return data & ~STUB_OBS_BIT; }
    uint64_t val() const { return data == STUB_SEP ? data : (data & ~STUB_OBS_BIT); }
    bool is_separator() const { return data == STUB_SEP; }
    bool is_observable_id() const { return data != STUB_SEP && (data & STUB_OBS_BIT); }
    bool is_relative_detector_id() const { return data != STUB_SEP && !(data & STUB_OBS_BIT); }
    bool operator==(const DemTarget& o) const { return data == o.data; }
    bool operator!=(const DemTarget& o) const { return data != o.data; }
    bool operator<(const DemTarget& o) const { return data < o.data; }
    void shift_if_detector_id(int64_t by) {
        if (is_relative_detector_id())
            data += (uint64_t)by;
    }
    std::string str() const {
        return is_separator() ? "^" : (is_observable_id() ? "L" : "D") + std::to_string(val());
    }
};
inline std::ostream& operator<<(std::ostream& out, const DemTarget& t) { return out << t.str(); }

template <typename T>
struct SpanRef {
    T* ptr_start = nullptr;
    T* ptr_end = nullptr;
    SpanRef() = default;
    SpanRef(T* a, T* b) : ptr_start(a), ptr_end(b) {}
    SpanRef(const std::vector<std::remove_const_t<T>>& v) : ptr_start(const_cast<T*>(v.data())), ptr_end(ptr_start + v.size()) {}
    size_t size() const { return (size_t)(ptr_end - ptr_start); }
    bool empty() const { return ptr_start == ptr_end; }
    T* begin() const { return ptr_start; }
    T* end() const { return ptr_end; }
    T& operator[](size_t k) const { return ptr_start[k]; }
    T& front() const { return *ptr_start; }
    T& back() const { return ptr_end[-1]; }
    SpanRef sub(size_t a, size_t b) const { return SpanRef(ptr_start + a, ptr_start + b); }
};

enum class DemInstructionType : uint8_t {
    DEM_ERROR,
    DEM_SHIFT_DETECTORS,
    DEM_DETECTOR,
    DEM_LOGICAL_OBSERVABLE,
    DEM_REPEAT_BLOCK,
};

struct DemInstruction {
    std::vector<double> arg_data;
    std::vector<DemTarget> target_data;
    std::string tag;
    DemInstructionType type = DemInstructionType::DEM_ERROR;
};

struct DetectorErrorModel {
    std::vector<DemInstruction> instructions;
    uint64_t min_detectors = 0;
    uint64_t min_observables = 0;

    DetectorErrorModel() = default;
    // Text format: one instruction per line; "error(p) D0 D1 ^ L0", "detector D5", "logical_observable L3".
    DetectorErrorModel(const char* text) { parse(text); }
    DetectorErrorModel(std::string_view text) { parse(std::string(text)); }
    static DetectorErrorModel from_file(FILE* f) {
        std::string s;
        int c;
        while ((c = getc(f)) != EOF)
            s.push_back((char)c);
        return DetectorErrorModel(s.c_str());
    }
    void parse(const std::string& text) {
        std::istringstream in(text);
        std::string line;
        uint64_t shift = 0;
        parse_block(in, shift, false);
    }
    void parse_block(std::istringstream& in, uint64_t& shift, bool inner) {
        std::string line;
        while (std::getline(in, line)) {
            auto h = line.find('#');
            if (h != std::string::npos)
                line.resize(h);
            auto tag_at = line.find('['), tag_end = line.find(']');
            if (tag_at != std::string::npos && tag_end != std::string::npos)
                line.erase(tag_at, tag_end + 1 - tag_at);
            std::istringstream ls(line);
            std::string head;
            if (!(ls >> head))
                continue;
            if (head == "}")
                return;
            if (head == "repeat") {
                uint64_t reps = 0;
                ls >> reps;
                auto pos = in.tellg();
                for (uint64_t r = 0; r < reps; r++) {
                    in.clear();
                    in.seekg(pos);
                    parse_block(in, shift, true);
                }
                continue;
            }
            DemInstruction ins;
            auto lp = head.find('(');
            std::string name = head.substr(0, lp);
            if (lp != std::string::npos)
                ins.arg_data.push_back(std::strtod(head.c_str() + lp + 1, nullptr));
            std::string tok;
            if (name == "shift_detectors") {
                uint64_t d = 0;
                ls >> d;
                shift += d;
                continue;
            }
            while (ls >> tok) {
                if (tok == "^")
                    ins.target_data.push_back(DemTarget::separator());
                else if (tok[0] == 'D')
                    ins.target_data.push_back(DemTarget::relative_detector_id(shift + std::strtoull(tok.c_str() + 1, nullptr, 10)));
                else if (tok[0] == 'L')
                    ins.target_data.push_back(DemTarget::observable_id(std::strtoull(tok.c_str() + 1, nullptr, 10)));
                else
                    throw std::invalid_argument("stub stim: bad target " + tok);
            }
            for (auto& t : ins.target_data) {
                if (t.is_relative_detector_id())
                    min_detectors = std::max(min_detectors, t.val() + 1);
                if (t.is_observable_id())
                    min_observables = std::max(min_observables, t.val() + 1);
            }
            if (name == "error")
                instructions.push_back(ins);
            else if (name != "detector" && name != "logical_observable")
                throw std::invalid_argument("stub stim: bad instruction " + name);
        }
    }
    uint64_t count_detectors() const { return min_detectors; }
    uint64_t count_observables() const { return min_observables; }
    uint64_t count_errors() const { return instructions.size(); }
    const DetectorErrorModel& flattened() const { return *this; }
    template <typename CALLBACK>
    void iter_flatten_error_instructions(const CALLBACK& callback) const {
        for (const auto& e : instructions)
            callback(e);
    }
};

// ----------------------------------------------------------------------------------------------------
// Circuits: the stand-in's circuit is the error model it stands for.

struct Circuit {
    std::string text;
    static Circuit from_file(FILE* f) {
        Circuit c;
        int ch;
        while ((ch = getc(f)) != EOF)
            c.text.push_back((char)ch);
        return c;
    }
};
struct ErrorAnalyzer {
    static DetectorErrorModel circuit_to_detector_error_model(
        const Circuit& circuit, bool decompose_errors, bool, bool, double, bool, bool) {
        if (!decompose_errors)
            throw std::invalid_argument("stub stim: errors must be decomposed");
        return DetectorErrorModel(circuit.text.c_str());
    }
};

// ----------------------------------------------------------------------------------------------------
// Command line arguments, as in Stim's arg_parse.

inline const char* require_find_argument(const char* name, int argc, const char** argv);
inline const char* find_argument(const char* name, int argc, const char** argv) {
    size_t n = strlen(name);
    for (int i = 1; i < argc; i++) {
        if (strncmp(argv[i], name, n) == 0) {
            if (argv[i][n] == '=')
                return argv[i] + n + 1;
            if (argv[i][n] == 0) {
                if (i + 1 < argc && (argv[i + 1][0] != '-' || isdigit((unsigned char)argv[i + 1][1])))
                    return argv[i + 1];
                return argv[i] + n;
            }
        }
        if (strcmp(argv[i], "--") == 0)
            break;
    }
    return nullptr;
}
inline const char* require_find_argument(const char* name, int argc, const char** argv) {
    const char* r = find_argument(name, argc, argv);
    if (!r)
        throw std::invalid_argument(std::string("Missing command line argument: '") + name + "'");
    return r;
}
inline void check_for_unknown_arguments(
    const std::vector<const char*>& known, const std::vector<const char*>& known_but_deprecated, const char* mode, int argc, const char** argv) {
    for (int i = 1; i < argc; i++) {
        if (mode != nullptr && i == 1 && strcmp(argv[i], mode) == 0)
            continue;
        const char* p = argv[i];
        if (p[0] != '-' || p[1] != '-')
            continue;
        bool ok = false;
        for (auto* list : {&known, &known_but_deprecated})
            for (auto* k : *list) {
                size_t n = strlen(k);
                ok = ok || (strncmp(p, k, n) == 0 && (p[n] == 0 || p[n] == '='));
            }
        if (!ok)
            throw std::invalid_argument(std::string("Unrecognized command line argument ") + p);
    }
}
inline bool find_bool_argument(const char* name, int argc, const char** argv) {
    const char* t = find_argument(name, argc, argv);
    if (t == nullptr)
        return false;
    if (*t == 0)
        return true;
    throw std::invalid_argument(std::string("Got non-empty value for boolean flag ") + name);
}
inline int64_t find_int64_argument(const char* name, int64_t dflt, int64_t lo, int64_t hi, int argc, const char** argv) {
    const char* t = find_argument(name, argc, argv);
    if (t == nullptr || *t == 0) {
        if (dflt < lo || dflt > hi)
            throw std::invalid_argument(std::string("Must specify a value for int flag ") + name);
        return dflt;
    }
    char* e;
    long long v = strtoll(t, &e, 10);
    if (*e || v < lo || v > hi)
        throw std::invalid_argument(std::string("Bad value for int flag ") + name);
    return v;
}
inline FILE* find_open_file_argument(const char* name, FILE* dflt, const char* mode, int argc, const char** argv) {
    const char* p = find_argument(name, argc, argv);
    if (p == nullptr) {
        if (dflt == nullptr)
            throw std::invalid_argument(std::string("Missing command line argument: '") + name + "'");
        return dflt;
    }
    if (*p == 0)
        throw std::invalid_argument(std::string("Command line argument '") + name + "' can't be empty. It's supposed to be a file path.");
    FILE* f = fopen(p, mode);
    if (!f)
        throw std::invalid_argument(std::string("Failed to open '") + p + "'");
    return f;
}
template <typename T>
const T& find_enum_argument(const char* name, const char* dflt, const std::map<std::string, T>& values, int argc, const char** argv) {
    const char* t = find_argument(name, argc, argv);
    if (t == nullptr) {
        if (dflt == nullptr)
            throw std::invalid_argument(std::string("Must specify a value for enum flag '") + name + "'.");
        return values.at(dflt);
    }
    auto it = values.find(t);
    if (it == values.end())
        throw std::invalid_argument(std::string("Unrecognized value '") + t + "' for enum flag '" + name + "'.");
    return it->second;
}

// ----------------------------------------------------------------------------------------------------
// Shot data: formats 01, b8, hits, dets, r8.

enum SampleFormat { SAMPLE_FORMAT_01, SAMPLE_FORMAT_B8, SAMPLE_FORMAT_PTB64, SAMPLE_FORMAT_HITS, SAMPLE_FORMAT_R8, SAMPLE_FORMAT_DETS };
struct FileFormatData {
    const char* name;
    SampleFormat id;
};
inline const std::map<std::string, FileFormatData>& format_name_to_enum_map() {
    static const std::map<std::string, FileFormatData> m = {
        {"01", {"01", SAMPLE_FORMAT_01}},
        {"b8", {"b8", SAMPLE_FORMAT_B8}},
        {"hits", {"hits", SAMPLE_FORMAT_HITS}},
        {"dets", {"dets", SAMPLE_FORMAT_DETS}},
        {"r8", {"r8", SAMPLE_FORMAT_R8}}};
    return m;
}
constexpr size_t MAX_BITWORD_WIDTH = 256;

template <size_t W>
struct simd_bits {
    std::vector<uint64_t> u64;
    simd_bits(size_t n = 0) : u64((n + 63) / 64) {}
    size_t num_u64_padded() const { return u64.size(); }
    size_t num_bits_padded() const { return u64.size() * 64; }
    bool not_zero() const {
        for (uint64_t x : u64)
            if (x)
                return true;
        return false;
    }
    bool operator==(const simd_bits& o) const {
        for (size_t k = 0; k < std::max(u64.size(), o.u64.size()); k++)
            if ((k < u64.size() ? u64[k] : 0) != (k < o.u64.size() ? o.u64[k] : 0))
                return false;
        return true;
    }
    bool operator!=(const simd_bits& o) const { return !(*this == o); }
    void set(size_t k) {
        if (u64.size() <= k / 64)
            u64.resize(k / 64 + 1);
        u64[k / 64] ^= uint64_t{1} << (k % 64);
    }
    bool operator[](size_t k) const { return k / 64 < u64.size() && (u64[k / 64] >> (k % 64) & 1); }
    void clear() { u64.assign(u64.size(), 0); }
};
struct SparseShot {
    std::vector<uint64_t> hits;
    simd_bits<64> obs_mask;
    void clear() {
        hits.clear();
        obs_mask.clear();
    }
    uint64_t obs_mask_as_u64() const { return obs_mask.u64.empty() ? 0 : obs_mask.u64[0]; }
};

template <size_t W>
struct MeasureRecordReader {
    FILE* in;
    SampleFormat f;
    size_t nm, nd, no;
    static std::unique_ptr<MeasureRecordReader> make(FILE* in, SampleFormat f, size_t nm, size_t nd, size_t no) {
        auto r = std::make_unique<MeasureRecordReader>();
        r->in = in;
        r->f = f;
        r->nm = nm;
        r->nd = nd;
        r->no = no;
        return r;
    }
    size_t bits() const { return nm + nd + no; }
    void hit(SparseShot& s, size_t k) const {
        if (k >= bits())
            throw std::invalid_argument("hit index is too large");
        if (k >= nm + nd)
            s.obs_mask.set(k - nm - nd);
        else
            s.hits.push_back(k);
    }
    bool start_and_read_entire_record(SparseShot& s) {
        int c = getc(in);
        if (c == EOF)
            return false;
        if (f == SAMPLE_FORMAT_01) {
            for (size_t k = 0; k < bits(); k++) {
                if (c == EOF || c == '\n')
                    throw std::invalid_argument("01 data ended in the middle of a record");
                if (c != '0' && c != '1')
                    throw std::invalid_argument("01 data contains a character that is not 0, 1 or newline");
                if (c == '1')
                    hit(s, k);
                c = getc(in);
            }
            if (c == '\r')
                c = getc(in);
            if (c != '\n')
                throw std::invalid_argument("01 data didn't end with a newline after the expected data length of " + std::to_string(bits()));
            return true;
        }
        if (f == SAMPLE_FORMAT_B8) {
            size_t nb = (bits() + 7) / 8;
            if (nb == 0)
                throw std::invalid_argument("b8 data for no bits");
            for (size_t b = 0; b < nb; b++) {
                if (c == EOF)
                    throw std::invalid_argument("b8 data ended in middle of record");
                for (size_t r = 0; r < 8; r++)
                    if ((c >> r & 1) && b * 8 + r < bits())
                        hit(s, b * 8 + r);
                if (b + 1 < nb)
                    c = getc(in);
            }
            return true;
        }
        if (f == SAMPLE_FORMAT_R8) {
            size_t pos = 0;
            while (true) {
                if (c == EOF)
                    throw std::invalid_argument("r8 data ended in middle of record");
                pos += (size_t)c;
                if (c != 255) {
                    if (pos == bits())
                        return true;
                    hit(s, pos);
                    pos++;
                }
                c = getc(in);
            }
        }
        std::string line;
        while (c != EOF && c != '\n') {
            line.push_back((char)c);
            c = getc(in);
        }
        if (f == SAMPLE_FORMAT_HITS) {
            std::istringstream ls(line);
            std::string t;
            while (std::getline(ls, t, ','))
                hit(s, std::strtoull(t.c_str(), nullptr, 10));
            return true;
        }
        std::istringstream ls(line);
        std::string t;
        ls >> t;
        if (t != "shot")
            throw std::invalid_argument("dets data didn't start with 'shot'");
        while (ls >> t) {
            size_t v = std::strtoull(t.c_str() + 1, nullptr, 10);
            hit(s, t[0] == 'M' ? v : t[0] == 'D' ? nm + v : nm + nd + v);
        }
        return true;
    }
};

struct MeasureRecordWriter {
    FILE* out;
    SampleFormat f;
    char type = 'M';
    std::vector<bool> bits;
    static std::unique_ptr<MeasureRecordWriter> make(FILE* out, SampleFormat f) {
        auto r = std::make_unique<MeasureRecordWriter>();
        r->out = out;
        r->f = f;
        return r;
    }
    void begin_result_type(char t) { type = t; }
    void write_bit(bool b) { bits.push_back(b); }
    void write_end() {
        if (f == SAMPLE_FORMAT_01) {
            for (bool b : bits)
                putc(b ? '1' : '0', out);
            putc('\n', out);
        } else if (f == SAMPLE_FORMAT_B8) {
            for (size_t k = 0; k < bits.size(); k += 8) {
                int c = 0;
                for (size_t r = 0; r < 8 && k + r < bits.size(); r++)
                    c |= bits[k + r] << r;
                putc(c, out);
            }
        } else if (f == SAMPLE_FORMAT_HITS) {
            bool first = true;
            for (size_t k = 0; k < bits.size(); k++)
                if (bits[k]) {
                    fprintf(out, first ? "%zu" : ",%zu", k);
                    first = false;
                }
            putc('\n', out);
        } else if (f == SAMPLE_FORMAT_DETS) {
            fprintf(out, "shot");
            for (size_t k = 0; k < bits.size(); k++)
                if (bits[k])
                    fprintf(out, " %c%zu", type, k);
            putc('\n', out);
        } else {
            size_t run = 0;
            for (bool b : bits) {
                if (b) {
                    while (run >= 255) {
                        putc(255, out);
                        run -= 255;
                    }
                    putc((int)run, out);
                    run = 0;
                } else
                    run++;
            }
            while (run >= 255) {
                putc(255, out);
                run -= 255;
            }
            putc((int)run, out);
        }
        bits.clear();
    }
};

}  // namespace stim

#endif
