// Parts of the driver that instantiate the repository's templates and its JSON library;
// kept in a translation unit of their own so that they are built in parallel and with sanitizers.
#ifndef VERIF_DRIVER_IO_H
#define VERIF_DRIVER_IO_H
#include <memory>
#include <string>
#include <vector>
#include "vgram_builders/string_vgram.h"
#include "vgram_builders/string_stream_vgram.h"

std::shared_ptr<vgram_core::IntStreamVGram> io_load_int_stream(const std::string &f);
std::shared_ptr<vgram_core::IntVGram> io_load_int(const std::string &f);
std::shared_ptr<vgram_core::StringStreamVGram> io_load_string_stream(const std::string &f);
std::shared_ptr<vgram_core::StringVGram> io_load_string(const std::string &f);

struct AnyEncoder { // Encoder<int> or Encoder<std::string>
    virtual ~AnyEncoder() = default;
    virtual void ints(const std::vector<int> &, std::vector<int> *) {}
    virtual void strs(const std::vector<std::string> &, std::vector<int> *) {}
    virtual int size() const = 0;
    bool is_int = true;
};
std::shared_ptr<AnyEncoder> new_encoder(int kind);
#endif
