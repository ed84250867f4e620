#include "driver_io.h"
#include "list_dict.h"
#include "loader.h"

using namespace vgram_core;

std::shared_ptr<IntStreamVGram> io_load_int_stream(const std::string &f) { return Loader::load_int_stream_vgram(f); }
std::shared_ptr<IntVGram> io_load_int(const std::string &f) { return std::shared_ptr<IntVGram>(Loader::load_int_vgram(f)); }
std::shared_ptr<StringStreamVGram> io_load_string_stream(const std::string &f) { return Loader::load_string_stream_vgram(f); }
std::shared_ptr<StringVGram> io_load_string(const std::string &f) { return std::shared_ptr<StringVGram>(Loader::load_string_vgram(f)); }

struct IntE : AnyEncoder {
    Encoder<int> e;
    void ints(const std::vector<int> &s, std::vector<int> *o) override { e.encode(s, o); }
    int size() const override { return e.size(); }
};
struct StrE : AnyEncoder {
    Encoder<std::string> e;
    StrE() { is_int = false; }
    void strs(const std::vector<std::string> &s, std::vector<int> *o) override { e.encode(s, o); }
    int size() const override { return e.size(); }
};
std::shared_ptr<AnyEncoder> new_encoder(int kind) {
    if (kind == 0) return std::make_shared<IntE>();
    return std::make_shared<StrE>();
}
